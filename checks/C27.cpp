// C27: Reading numbers from a stream is safe for every input.
#include "fracfam.hpp"
#include "complex.hpp"
#include "int.hpp"
using namespace fam;
using pyincpp::Complex;
using pyincpp::Int;
using mc::quote;

static bool isd(char ch) { return ch >= '0' && ch <= '9'; }
static bool ws(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
static bool odd_control(const std::string& t) // whether these delimit is left open
{
    for (char ch : t)
        if ((unsigned char)ch <= 0x20 && !ws(ch))
            return true;
    return false;
}
// sign? digits; returns the length, 0 if there is none
static std::size_t digits(const std::string& t, std::size_t i, bool sign)
{
    std::size_t b = i;
    if (sign && i < t.size() && (t[i] == '+' || t[i] == '-'))
        ++i;
    std::size_t d = i;
    while (i < t.size() && isd(t[i]))
        ++i;
    return i > d ? i - b : 0;
}
// sign? (digits [. digits*] | . digits) [e sign? digits]; length of the longest such prefix
static std::size_t decimal(const std::string& t, std::size_t i)
{
    std::size_t b = i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-'))
        ++i;
    int n = 0;
    while (i < t.size() && isd(t[i]))
        ++i, ++n;
    if (i < t.size() && t[i] == '.')
        ++i;
    while (i < t.size() && isd(t[i]))
        ++i, ++n;
    if (n == 0)
        return 0;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        std::size_t k = digits(t, i + 1, true);
        if (k)
            i += 1 + k;
    }
    return i - b;
}

// What reading the token has to do: -1 reject, 1 accept with the value in `text` form, 0 left open.
struct TInt
{
    typedef Int V;
    static const char* name() { return "Int"; }
    static V start() { return Int(7); }
    static std::string show(const V& v) { return mc::str(v); }
    static int want(const std::string& t, std::string& v)
    {
        if (t.empty() || digits(t, 0, true) != t.size())
            return -1;
        bool neg = t[0] == '-';
        std::size_t i = !isd(t[0]);
        while (i + 1 < t.size() && t[i] == '0')
            ++i;
        v = t.substr(i);
        if (neg && v != "0")
            v = "-" + v;
        return 1;
    }
};
struct TFraction
{
    typedef Fraction V;
    static const char* name() { return "Fraction"; }
    static V start() { return Fraction(7, 13); }
    static std::string show(const V& v) { return sf(v); }
    static bool number(const std::string& s, long& v)
    {
        if (s.size() > 40)
            return false;
        __int128 x = 0;
        for (char ch : s)
            if (isd(ch))
                x = std::min<__int128>(x * 10 + (ch - '0'), (__int128)1 << 100);
        if (s[0] == '-')
            x = -x;
        if (x < INT_MIN || x > INT_MAX)
            return false;
        v = x;
        return true;
    }
    static int want(const std::string& t, std::string& v)
    {
        std::size_t a = digits(t, 0, true);
        if (a == 0)
            return -1;
        long n, d = 1;
        if (!number(t.substr(0, a), n))
            return t.size() > 40 ? 0 : -1;
        if (a != t.size())
        {
            if (t[a] != '/')
                return -1;
            std::size_t b = digits(t, a + 1, true);
            if (b == 0 || a + 1 + b != t.size())
                return -1;
            if (!number(t.substr(a + 1), d))
                return t.size() > 40 ? 0 : -1;
            if (d == 0)
                return -1;
        }
        Q q(n, d);
        if (!q.fits())
            return -1;
        v = sq(q);
        return 1;
    }
};
struct TComplex
{
    typedef Complex V;
    static const char* name() { return "Complex"; }
    static V start() { return Complex(7, 13); }
    static std::string show(const V& v)
    {
        char b[100];
        std::snprintf(b, sizeof b, "%.15g,%.15g", v.real() + 0.0, v.imag() + 0.0);
        return b;
    }
    static bool number(const std::string& s, double& v)
    {
        v = std::strtod(s.c_str(), nullptr);
        bool zero = true;
        for (char ch : s)
        {
            if (ch == 'e' || ch == 'E')
                break;
            if (ch >= '1' && ch <= '9')
                zero = false;
        }
        return std::isfinite(v) && (zero || std::fabs(v) > 1e-300);
    }
    static int want(const std::string& t, std::string& v)
    {
        std::size_t a = decimal(t, 0);
        if (a == 0)
            return -1;
        double x, y = 0;
        bool in_range = number(t.substr(0, a), x);
        if (a < t.size())
        {
            if (t[a] == 'j' && a + 1 == t.size())
            {
                y = x;
                x = 0;
            }
            else
            {
                if (t[a] != '+' && t[a] != '-')
                    return -1;
                std::size_t b = decimal(t, a);
                if (b == 0 || a + b + 1 != t.size() || t[a + b] != 'j')
                    return -1;
                in_range = number(t.substr(a, b), y) && in_range;
            }
        }
        if (!in_range)
            return 0;
        v = show(Complex(x, y));
        return 1;
    }
};

// Outcome of one read: "value", "failed" or "runtime_error".
template <class T>
std::string read(std::istream& is, typename T::V& v)
{
    std::string o = outcome_of([&] { is >> v; });
    if (o == "ok")
        return is.fail() ? "failed" : T::show(v);
    return o;
}
static std::string token(const std::string& t, std::size_t& i)
{
    while (i < t.size() && ws(t[i]))
        ++i;
    std::size_t b = i;
    while (i < t.size() && !ws(t[i]))
        ++i;
    return t.substr(b, i - b);
}
template <class T>
void check(Ctx& c, const std::string& text)
{
    LOG(c, T::name() << " from " << quote(text));
    std::istringstream is(text);
    std::size_t i = 0;
    // read value after value, until one is rejected
    for (int n = 0; n < 8; ++n)
    {
        c.step();
        std::string tok = token(text, i), v;
        int w = T::want(tok, v);
        if (odd_control(text))
            w = 0;
        typename T::V x = T::start();
        std::string o = read<T>(is, x);
        CHECK(o.compare(0, 5, "other") != 0 && o != "bad_alloc", quote(text) << ": token " << quote(tok) << " raised " << o);
        bool rejected = o == "failed" || o == "runtime_error";
        if (o == "runtime_error")
            CHECK(T::show(x) == T::show(T::start()), quote(text) << ": a throwing read of " << quote(tok) << " changed the target to " << T::show(x));
        if (w == 1)
            CHECK(o == v, T::name() << " from " << quote(text) << ": token " << quote(tok) << " read as " << o << ", expected " << v);
        if (w == -1)
            CHECK(rejected, T::name() << " from " << quote(text) << ": token " << quote(tok) << " was accepted as " << o);
        c.outcome(T::name() + o);
        if (w != 1 || rejected)
            break;
    }
    c.state(T::name() + text);
}
template <class T>
void words(const std::string& alpha, int len)
{
    mc::scenario(std::string(T::name()) + "/words", alpha.size() + 1, [=](Ctx& c)
                 {
                     std::string t;
                     for (int i = 0; i < len; ++i)
                     {
                         int k = c.choose(alpha.size() + 1);
                         if (k == 0)
                             break;
                         t += alpha[k - 1];
                     }
                     check<T>(c, t);
                 });
}
template <class T>
void bytes(const std::vector<std::string>& pre, const std::vector<std::string>& post)
{
    mc::scenario(std::string(T::name()) + "/every byte", 16, [=](Ctx& c)
                 {
                     std::string t = c.of(pre);
                     t += char(c.choose(256));
                     check<T>(c, t + c.of(post));
                 });
}
template <class T>
void tokens(const std::vector<std::string>& toks, int n)
{
    static const std::vector<std::string> sep{" ", "\n", "\t \r\n", "\v\f"}, lead{"", "  \n"}, trail{"", "\n"};
    // sequences of tokens, good and bad
    mc::scenario(std::string(T::name()) + "/tokens", 32, [=](Ctx& c)
                 {
                     std::string t;
                     for (int i = 0; i < n; ++i)
                     {
                         t += c.of(toks);
                         if (i + 1 < n)
                             t += i ? sep[1] : c.of(sep);
                     }
                     t = c.of(lead) + t;
                     check<T>(c, t + c.of(trail));
                 });
    // the outcome of a read depends on its input only, not on what was read before
    mc::scenario(std::string(T::name()) + "/history independence", 32, [=](Ctx& c)
                 {
                     const std::string &a = c.of(toks), &b = c.of(toks);
                     auto one = [&](const std::string& t)
                     {
                         std::istringstream is(t);
                         typename T::V x = T::start();
                         return read<T>(is, x);
                     };
                     LOG(c, "read " << quote(b) << " after " << quote(a));
                     std::string v;
                     one(a);
                     std::string o1 = one(b);
                     one("1");
                     std::string o2 = one(b);
                     one("x");
                     std::string o3 = one(b);
                     CHECK(o1 == o2 && o2 == o3, "reading " << quote(b) << " gives " << o1 << ", " << o2 << ", " << o3 << " depending on earlier reads");
                     c.step(6);
                 });
    // streams that are at their end or failed before the read
    mc::scenario(std::string(T::name()) + "/stream states", 4, [=](Ctx& c)
                 {
                     int k = c.choose(7);
                     std::istringstream is(k < 3 ? "" : "12 13");
                     LOG(c, "stream state " << k);
                     typename T::V x = T::start();
                     std::string junk;
                     switch (k)
                     {
                         case 0: break;
                         case 1: is.peek(); break;
                         case 2: is.get(); break;
                         case 3: is.setstate(std::ios::failbit); break;
                         case 4: is.setstate(std::ios::badbit); break;
                         case 5: is >> junk >> junk; break;
                         case 6: is.setstate(std::ios::eofbit); break;
                     }
                     for (int i = 0; i < 3; ++i)
                     {
                         std::string o = read<T>(is, x);
                         CHECK(o == "failed" || o == "runtime_error", "a read from an exhausted or failed stream gave " << o);
                         if (o == "runtime_error")
                             CHECK(T::show(x) == T::show(T::start()), "target changed");
                         c.step();
                     }
                 });
    // interleaved with other extractions
    mc::scenario(std::string(T::name()) + "/mixed", 4, [=](Ctx& c)
                 {
                     int m = c.choose(8);
                     std::istringstream is("12 34\nword -5 +6");
                     std::string w;
                     int n;
                     typename T::V x = T::start();
                     std::string v, o;
                     T::want("12", v);
                     CHECK(read<T>(is, x) == v, "first");
                     if (m & 1)
                         is >> n;
                     else
                     {
                         T::want("34", v);
                         CHECK(read<T>(is, x) == v, "second");
                     }
                     is >> w;
                     CHECK(w == "word", "the word after the number is " << quote(w));
                     T::want("-5", v);
                     CHECK(read<T>(is, x) == v, "third");
                     if (m & 2)
                     {
                         CHECK(is.get() == ' ', "the delimiter was consumed");
                     }
                     T::want("6", v);
                     CHECK(read<T>(is, x) == v, "fourth");
                     if (m & 4)
                         CHECK(is.peek() == EOF, "end");
                     c.step(4);
                 });
}

// Numbers of any length, followed by another one.
template <class T>
void lengths(const std::vector<std::vector<std::string>>& shapes) // text with digits inserted between its pieces
{
    mc::scenario(std::string(T::name()) + "/lengths", 16, [=](Ctx& c)
                 {
                     static const std::vector<int> ns = []
                     {
                         std::vector<int> v;
                         for (int i = 1; i <= 40; ++i)
                             v.push_back(i);
                         for (int n : {48, 50, 64, 80, 100, 128, 200, 250, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 4300, 8192, 10000})
                             for (int d = -2; d <= 2; ++d)
                                 v.push_back(n + d);
                         return v;
                     }();
                     int n = c.of(ns);
                     static const std::vector<std::string> digits{"0", "9", "1029384756", "0000001"};
                     const std::string& d = c.of(digits);
                     std::string run;
                     while ((int)run.size() < n)
                         run += d;
                     run.resize(n);
                     const auto& sh = c.of(shapes);
                     std::string t = sh[0];
                     for (std::size_t i = 1; i < sh.size(); ++i)
                         t += run + sh[i];
                     static const std::vector<std::string> after{"", " ", "\n-5 ", "\t7"};
                     check<T>(c, t + c.of(after));
                 });
}

void register_scenarios()
{
    bool T = mc::G.tier;
    lengths<TInt>({{"", ""}, {"-", ""}, {"+7", ""}, {" 00", "8"}, {"", "x"}, {"1", "-2"}});
    lengths<TFraction>({{"", ""}, {"-", "/7"}, {"3/", ""}, {"", "1/", "2"}, {"1/", "x"}});
    lengths<TComplex>({{"", ""}, {"-", ".5"}, {"0.", "5j"}, {"1.", "5-2.", "5j"}, {"", "e-", "j"}, {"1+0.", "3j5"}});
    words<TInt>(" \n+-09a", T ? 7 : 6);
    words<TFraction>(" +-/120|", T ? 7 : 6);
    words<TComplex>(" +-.1j2e", T ? 7 : 6);
    std::string nul("1\0" "2", 3);
    bytes<TInt>({"", "1", "-", "+1", "12 ", " ", "123456789012345678901"}, {"", "1", " 2", "-"});
    bytes<TFraction>({"", "1", "-", "+1/", "1/2", "1/2 ", "1/-", " "}, {"", "1", "2", " 2", "/2", "1/2"});
    bytes<TComplex>({"", "1", "-", "1+", "1+2", "1+2j", "1.", "1j", "1+2j ", " ", "1e", "1-2e"}, {"", "1", "j", " 2", "+2j", "2j", "j 1"});
    tokens<TInt>({"0", "1", "-1", "+12", "-0", "00012", "999999999", "1000000000", "-123456789012345678901234567890", "", "+", "-", "1.5", "12a", "a12", "--1", "+-1", nul, "0x1f", "1e5", "1,000"}, T ? 3 : 2);
    tokens<TFraction>({"0", "1", "-1", "+12", "1/2", "-1/2", "1/-2", "-6/-4", "+1/+2", "0/5", "0/0", "1/0", "2147483647/2147483646", "-2147483648", "-2147483648/2147483647", "2147483648", "1/2147483648", "1/-2147483648", "99999999999/2", "4/-2147483648", "-2147483648/-2147483648", "", "/", "/2", "1/", "1//2", "1/2/3", "1|2", "1/2z", "1/z2", "z1/2", "1.5", "1/2.5", "+", "-", "-/2", "1/-", "1/+-2", "--1/2", "1 /2", "1/ 2", "1 / 2", "010/04", "1j"}, T ? 3 : 2);
    tokens<TComplex>({"0", "1", "-1", "+12", "1.5", "-.5", "5.", "1e3", "-2.5E-3", "1j", "-1j", "+2.5j", "1+2j", "1-2j", "-1.5+2.5j", "1e5-2e-3j", "+0-0j", ".5+.25j", "1e308+1e308j", "", "+", "-", ".", "j", "+j", "1+j", "1+2", "1-2", "1+2i", "1+2jj", "1jj", "1j2", "1j+2", "1+-2j", "1--2j", "1..2j", "1.5.5j", "1.2.3", "1+2j3", "1z+2j", "1+z2j", "1+2zj", "1+ 2j", "1 +2j", "1+2 j", "1 j", "(1+2j)", "1e", "1e+", "1e+j", "1+2ej", "1e999", "1,5", "inf", "nan", "infj", "1+infj", "0x10", "1_0"}, 2);
}
