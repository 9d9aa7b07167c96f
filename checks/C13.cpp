// C13: Str.format substitutes arguments in order, once each.
#include "strfam.hpp"
#include "int.hpp"
#include "dict.hpp"
#include <iomanip>
#include <locale>
#include <stdexcept>
using namespace fam;
using pyincpp::Int;
using pyincpp::List;

// Reference: one left-to-right scan of the format; inserted text is never looked at again.
static std::string ref(const std::string& f, const std::vector<std::string>& args)
{
    std::string out;
    std::size_t at = 0, k = 0;
    while (k < args.size())
    {
        std::size_t o = f.find('{', at);
        if (o == std::string::npos)
            break;
        std::size_t e = f.find('}', o + 1);
        if (e == std::string::npos)
            break;
        out += f.substr(at, o - at) + args[k++];
        at = e + 1;
    }
    return out + f.substr(at);
}

struct Thing // prints like a value that also leaves formatting state behind
{
    int v;
    friend std::ostream& operator<<(std::ostream& os, const Thing& t)
    {
        return os << "<" << t.v << ">";
    }
};

// arguments that leave the stream they are printed on in another state
struct Bad
{
    int how;
    friend std::ostream& operator<<(std::ostream& os, const Bad& b)
    {
        switch (b.how)
        {
            case -1: os << 255 << ' ' << 0.25 << ' ' << true; break; // an ordinary one
            case 0: throw std::runtime_error("no text");
            case 1: os << "partial"; throw 42;
            case 2: os << "partial"; os.setstate(std::ios::badbit); break;
            case 3: os << "f"; os.setstate(std::ios::failbit); break;
            case 4: os << "e"; os.setstate(std::ios::eofbit); break;
            case 5: os << std::hex << std::showbase << std::uppercase << 255; break;
            case 6: os << std::fixed << std::setprecision(1) << std::showpos << 0.25; break;
            case 7: os << std::setfill('*') << std::left << std::boolalpha << true << std::setw(9); break;
            case 8: os.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit); break;
            case 9: os.imbue(std::locale(std::locale::classic(), new std::numpunct<char>())); os.width(12); break;
            case 10: os.exceptions(std::ios::goodbit); os << std::scientific; break;
            case 11: os.seekp(0); os << ""; break;
        }
        return os;
    }
};

static void check(Ctx& c, const std::string& rf, int nargs, int kind)
{
    const Str f(rf);
    LOG(c, quote(rf) << " with " << nargs << " arguments, kind " << kind);
    Str r;
    std::vector<std::string> a;
    auto run = [&](const auto&... xs)
    {
        a = {[&] { std::ostringstream o; o << xs; return o.str(); }()...};
        r = f.format(xs...);
    };
    switch (kind * 10 + nargs)
    {
        case 0: case 10: case 20: case 30: run(); break;
        case 1: run(1); break;
        case 2: run(1, "two"); break;
        case 3: run(1, "two", 3.5); break;
        case 4: run(1, "two", 3.5, 'c'); break;
        // arguments that contain braces or nothing
        case 11: run("{}"); break;
        case 12: run("{", "}"); break;
        case 13: run("}{", std::string("a{b}c"), ""); break;
        case 14: run("", "{}", "{{}}", std::string(40, '{')); break;
        // library types
        case 21: run(Int("-123456789012345678901234567890")); break;
        case 22: run(Str("q{}"), List<int>{1, 2, 3}); break;
        case 23: run(List<Str>{"a", "{}"}, Int(0), Thing{7}); break;
        case 24: run(List<Int>{1, -20, 300}, Int(5), 42, Str("")); break;
        case 31: run(std::string("\0x", 2)); break;
        case 32: run(std::string(300, 'L'), -1); break;
        case 33: run(true, 1e100, (unsigned char)200); break;
        case 34: run(0x7fffffffffffffffll, -1l, '{', '}'); break;
    }
    is(r, ref(rf, a), quote(rf) + ".format(...)");
    is(f, rf, "format string unchanged");
    c.step();
    c.state(rf + "|" + std::to_string(kind * 10 + nargs));
}

// an argument that formats while it is being printed
struct Nest
{
    int how, depth;
    std::string text() const
    {
        std::string in = depth ? Nest{how, depth - 1}.text() : "0";
        switch (how)
        {
            case 0: return "<" + in + ">";
            case 1: return in;
            case 2: return in + "|" + in + "|" + in;
        }
        return "";
    }
    friend std::ostream& operator<<(std::ostream& os, const Nest& n)
    {
        auto inner = [&](auto f)
        {
            if (n.depth)
                f(Nest{n.how, n.depth - 1});
            else
                f(0);
        };
        auto put = [&os](const Str& s)
        { os << std::string(s.begin(), s.end()); };
        switch (n.how)
        {
            case 0: inner([&](const auto& x) { put(Str("<{}>").format(x)); }); break;
            case 1: inner([&](const auto& x) { put(Str("{}").format(x)); }); break;
            case 2: inner([&](const auto& x) { put(Str("{}|{}|{}").format(x, x, x)); }); break;
        }
        return os;
    }
};
void register_scenarios()
{
    bool T = mc::G.tier;
    mc::scenario("words", 4, [T](Ctx& c)
                 {
                     std::string rf = word(c, "{}x", T ? 10 : 8);
                     check(c, rf, c.choose(5), 1);
                 });
    mc::scenario("words-kinds", 6, [T](Ctx& c)
                 {
                     std::string rf = word(c, std::string("{}x0\0", 5), T ? 6 : 5);
                     int n = c.choose(5);
                     check(c, rf, n, c.choose(4));
                 });
    mc::scenario("long", 8, [](Ctx& c)
                 {
                     static const std::vector<std::string> piece{"", "{}", "{0}", "{name}", "{{}}", "}", "{", std::string(20, 't'), std::string(300, 'u'), "{" + std::string(40, 'f') + "}"};
                     std::string rf;
                     for (int i = 0; i < 5; ++i)
                         rf += c.of(piece);
                     int n = c.choose(5);
                     check(c, rf, n, (rf.size() + n) % 4);
                 });
    mc::scenario("many-fields", 2, [](Ctx& c)
                 {
                     int n = c.choose(14), gap = c.choose(3);
                     std::string rf;
                     for (int i = 0; i < n; ++i)
                         rf += std::string(gap, '.') + "{}";
                     std::vector<std::string> a;
                     for (int i = 1; i <= 12; ++i)
                         a.push_back(std::to_string(i * 111));
                     Str r = Str(rf).format(111, 222, 333, 444, 555, 666, 777, 888, 999, 1110, 1221, 1332);
                     is(r, ref(rf, a), "format with 12 arguments of " + quote(rf));
                     c.step();
                     c.state(rf);
                 });
    mc::scenario("self", 1, [](Ctx& c)
                 {
                     static const std::vector<std::string> v{"", "{}", "a{}b{}", "{{}"};
                     std::string rf = c.of(v);
                     const Str f(rf);
                     is(f.format(f, f), ref(rf, {"\"" + rf + "\"", "\"" + rf + "\""}), "f.format(f, f)");
                     is(f, rf, "format string unchanged");
                     c.step();
                     c.state(rf);
                 });
    // what an argument does to the stream, or how a call ends, is nothing to a later call
    mc::scenario("after another call", 4, [](Ctx& c)
                 {
                     int n = 1 + c.choose(2), fields = c.choose(3);
                     for (int i = 0; i < n; ++i)
                     {
                         Bad b{c.choose(12)};
                         LOG(c, "a call with an argument of kind " << b.how);
                         try
                         {
                             if (fields == 0)
                                 Str("{}").format(b);
                             else if (fields == 1)
                                 Str("x{}y{}z").format(1, b);
                             else
                                 Str("no field").format(b);
                         }
                         catch (...)
                         {
                         }
                     }
                     LOG(c, "then an ordinary one");
                     // first with the same types of arguments
                     is(Str("{}").format(Bad{-1}), "255 0.25 1", "after another call");
                     is(Str("x{}y{}z").format(1, Bad{-1}), "x1y255 0.25 1z", "after another call");
                     is(Str("no field").format(Bad{-1}), "no field", "after another call");
                     is(Str("{} {} {} {}").format(255, 0.25, true, "t"), "255 0.25 1 t", "after another call");
                     is(Str("[{}]").format(List<Int>{-10, 20}), "[[-10, 20]]", "after another call");
                     is(Str("{}{}").format('c', 1e100), "c1e+100", "after another call");
                     is(Str("{}").format(""), "", "after another call");
                     c.step(n + 4);
                     c.state(fields);
                 });
    mc::scenario("nested calls", 4, [](Ctx& c)
                 {
                     Nest a{c.choose(3), c.choose(4)}, b{c.choose(3), c.choose(4)};
                     int layout = c.choose(4);
                     LOG(c, "layout " << layout << " with " << a.text() << " and " << b.text());
                     if (layout == 0)
                         is(Str("{}").format(a), a.text(), "one argument that formats");
                     else if (layout == 1)
                         is(Str("a{}b{}c").format(a, b), "a" + a.text() + "b" + b.text() + "c", "two arguments that format");
                     else if (layout == 2)
                         is(Str("a{}b{}c{}").format(1, b, 2), "a1b" + b.text() + "c2", "an argument that formats, among others");
                     else
                         is(Str("a{}").format(a, b, 3), "a" + a.text(), "arguments without a field");
                     c.step();
                     c.state(layout * 1000 + a.how * 100 + a.depth * 16 + b.how * 4 + b.depth);
                 });
    mc::scenario("very long", 2, [](Ctx& c)
                 {
                     int n = c.of(std::vector<int>{4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131073, 1048577}), where = c.choose(6);
                     std::string L(n, 'L'), rf = where == 0 ? L + "{}b{}" : where == 1 ? "{}" + L + "{}" : where == 2 ? "a{}b{}" + L : where == 3 ? "{" + L + "}{}" : where == 4 ? "{}-{}" : L + L;
                     std::string arg = where == 4 ? L + "{}" : "1{}";
                     LOG(c, "length " << n << ", layout " << where);
                     is(Str(rf).format(arg, 2, 3), ref(rf, {arg, "2", "3"}), "long text in layout " + std::to_string(where));
                     c.step();
                     c.state(n * 10 + where);
                 });
}
