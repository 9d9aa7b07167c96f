// C38: reading a Str takes exactly one line.
// All input texts up to a length over {letters, blanks, newline, NUL, CR, high bytes, control characters}, delivered by
// stream buffers in chunks of every size, with any previous value of the target; long lines around buffer sizes.
#include "support.hpp"
#include "pyincpp.hpp"
using mc::Ctx;
using mc::quote;
using pyincpp::Str;

namespace
{
// hands out its text n characters at a time
struct Chunks : std::streambuf
{
    std::string s;
    std::size_t at = 0, n;
    Chunks(const std::string& t, std::size_t k)
        : s(t)
        , n(k)
    {
    }
    int_type underflow() override
    {
        if (at >= s.size())
            return traits_type::eof();
        std::size_t k = std::min(n, s.size() - at);
        setg(s.data() + at, s.data() + at, s.data() + at + k);
        at += k;
        return traits_type::to_int_type(*gptr());
    }
};
std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> v;
    std::string cur;
    for (char ch : s)
        if (ch == '\n')
            v.push_back(cur), cur.clear();
        else
            cur += ch;
    if (!cur.empty())
        v.push_back(cur);
    return v;
}
bool is(const Str& s, const std::string& w)
{
    return s.size() == int(w.size()) && std::string(s.begin(), s.end()) == w && s == Str(w) && s.is_empty() == w.empty();
}
// one: all lines into the same object, otherwise each into a fresh one
void read_all(std::istream& in, const std::string& text, const std::string& before, bool one)
{
    auto want = lines(text);
    Str target(before);
    const Str other = target;
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        Str fresh(before);
        Str& t = one ? target : fresh;
        std::istream* r = nullptr;
        std::string o = mc::outcome_of([&] { r = &(in >> t); });
        CHECK(o == "ok", "line " << i + 1 << " of " << quote(text) << ": " << o);
        CHECK(r == &in && !in.fail(), "line " << i + 1 << " of " << quote(text) << ": the stream failed");
        CHECK(is(t, want[i]), "line " << i + 1 << " of " << quote(text) << " is " << quote(std::string(t.begin(), t.end())) << ", expected " << quote(want[i]));
        CHECK(is(other, before), "a copy of the target changed");
    }
    // nothing left: the read fails and goes on failing
    for (int k = 0; k < 2; ++k)
    {
        Str t(before);
        std::string o = mc::outcome_of([&] { in >> t; });
        CHECK(o == "runtime_error" || (o == "ok" && in.fail()), "a read after the last line of " << quote(text) << " is " << o << " and the stream " << (in.fail() ? "failed" : "is good"));
        CHECK(t.size() >= 0 && Str(t) == t, "target after a failed read");
    }
    CHECK(is(other, before), "a copy of the target changed");
}
} // namespace

void register_scenarios()
{
    bool T = mc::G.tier;
    mc::scenario("words", 64, [T](Ctx& c)
                 {
                     static const char alphabet[] = {'\n', 'a', ' ', '\0', '\r', '\xff', '\t', '"'};
                     std::string s;
                     for (int i = 0; i < (T ? 6 : 5); ++i)
                     {
                         int k = c.choose(9);
                         if (k == 0)
                             break;
                         s += alphabet[k - 1];
                     }
                     LOG(c, quote(s));
                     for (const char* before : {"", "x", "an older value, long enough to live on the heap"})
                         for (bool one : {true, false})
                         {
                             std::istringstream in(s);
                             read_all(in, s, before, one);
                             c.step();
                         }
                     c.state(s);
                 });
    mc::scenario("chunks", 16, [T](Ctx& c)
                 {
                     std::string s;
                     for (int i = 0; i < (T ? 9 : 7); ++i)
                     {
                         int k = c.choose(4);
                         if (k == 0)
                             break;
                         s += "\nb "[k - 1];
                     }
                     int n = 1 + c.choose(4);
                     LOG(c, quote(s) << " in chunks of " << n);
                     Chunks b(s, n);
                     std::istream in(&b);
                     read_all(in, s, "before", true);
                     c.step();
                     c.state(s + char(n));
                 });
    mc::scenario("every byte", 16, [](Ctx& c)
                 {
                     int x = c.choose(256), y = c.choose(256), shape = c.choose(4);
                     std::string s;
                     switch (shape)
                     {
                         case 0: s = {char(x), char(y)}; break;
                         case 1: s = {'a', char(x), '\n', char(y)}; break;
                         case 2: s = {char(x), 'a', char(y), '\n'}; break;
                         case 3: s = std::string(20, char(x)) + char(y) + std::string(20, char(x)); break;
                     }
                     LOG(c, quote(s));
                     std::istringstream in(s);
                     read_all(in, s, "before", y % 2);
                     c.step();
                     c.state(s);
                 });
    // manipulators of formatted input do not concern lines
    mc::scenario("stream state", 16, [](Ctx& c)
                 {
                     static const std::vector<std::string> texts{"  a b  \n\t c", "\n\n x", "12 34\n5", " ", "\n"};
                     const auto& s = c.of(texts);
                     int flags = c.choose(16), width = c.choose(4);
                     LOG(c, quote(s) << " flags " << flags << " width " << width);
                     std::istringstream in(s);
                     if (flags & 1)
                         in >> std::noskipws;
                     if (flags & 2)
                         in >> std::hex >> std::boolalpha;
                     if (flags & 4)
                         in.fill('*');
                     if (flags & 8)
                         in.unsetf(std::ios::dec);
                     in.width(width);
                     read_all(in, s, "before", false);
                     // a stream that failed before is not read
                     std::istringstream bad(s);
                     bad.setstate(c.flip() ? std::ios::failbit : std::ios::badbit);
                     Str t("kept");
                     std::string o = mc::outcome_of([&] { bad >> t; });
                     CHECK(o == "runtime_error" || bad.fail(), "reading from a failed stream");
                     bad.clear();
                     CHECK(bad.peek() == (unsigned char)s[0], "a failed stream was read from");
                     c.step(2);
                     c.state(s + char(flags) + char(width));
                 });
    mc::scenario("long lines", 16, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{15, 16, 17, 22, 31, 32, 63, 64, 79, 80, 81, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 131073, 1048577};
                     int n = c.of(ns), k = c.choose(4), next = c.choose(3);
                     char fill = "x \0\xff"[c.choose(4)];
                     std::string s(n, fill);
                     if (k == 1)
                         s[n / 2] = '\0';
                     if (k == 2)
                         s[n - 1] = '\r';
                     if (next)
                         s += "\n" + std::string(next == 1 ? 3 : n, 'y');
                     LOG(c, n << " characters, kind " << k << ", next " << next);
                     if (k == 3)
                     {
                         Chunks b(s, n < 1000 ? 7 : 1021);
                         std::istream in(&b);
                         read_all(in, s, "before", false);
                     }
                     else
                     {
                         std::istringstream in(s);
                         read_all(in, s, std::string(n / 2, 'z'), true);
                     }
                     c.step();
                     c.state(n * 100l + k * 10 + next);
                 });
    mc::scenario("many lines", 8, [T](Ctx& c)
                 {
                     int n = c.of(std::vector<int>{100, 255, 256, 257, 1000, 65537}), kind = c.choose(3);
                     std::string s;
                     for (int i = 0; i < n; ++i)
                         s += (kind == 0 ? "" : kind == 1 ? std::to_string(i) : std::string(i % 70, 'q')) + "\n";
                     LOG(c, n << " lines of kind " << kind);
                     std::istringstream in(s);
                     read_all(in, s, "", true);
                     c.step(n);
                     c.state(n * 10l + kind);
                 });
}
