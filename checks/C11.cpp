// C11: Str case mapping and strip touch only what they should.
#include "strfam.hpp"
using namespace fam;

static std::string lower(std::string s)
{
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z')
            c = char(c + 32);
    return s;
}
static std::string upper(std::string s)
{
    for (auto& c : s)
        if (c >= 'a' && c <= 'z')
            c = char(c - 32);
    return s;
}
template <class P>
static std::string trim(const std::string& s, P blank)
{
    std::size_t a = 0, b = s.size();
    while (a < b && blank((unsigned char)s[a]))
        ++a;
    while (b > a && blank((unsigned char)s[b - 1]))
        --b;
    return s.substr(a, b - a);
}
static void check(Ctx& c, const std::string& rs, const std::vector<int>& chars)
{
    const Str s(rs);
    LOG(c, quote(rs));
    is(s.lower(), lower(rs), "lower of " + quote(rs));
    is(s.upper(), upper(rs), "upper of " + quote(rs));
    is(s.lower().upper(), upper(rs), "lower.upper");
    is(s.strip(), trim(rs, [](unsigned char b) { return b <= 0x20; }), "strip() of " + quote(rs));
    for (int ch : chars)
    {
        signed char k = (signed char)ch;
        is(s.strip(k), trim(rs, [ch](unsigned char b) { return b == (unsigned char)ch; }), "strip(" + std::to_string(ch) + ") of " + quote(rs));
    }
    is(s, rs, "original");
    c.step(4 + chars.size());
    c.state(rs);
}

void register_scenarios()
{
    bool T = mc::G.tier;
    // one byte: every value; as only, first, last, middle character; every strip character for it (0xFF is the
    // default argument of strip and stands for "blank")
    mc::scenario("every-byte", 16, [](Ctx& c)
                 {
                     int b = c.choose(256);
                     static const std::vector<std::string> pre{"", "x", " ", "\x80", std::string("\0", 1), "Aa", "  Zz"}, post{"", "y", " ", "\xfe", std::string("\0", 1), "@[`{", "a  "};
                     std::string rs = c.of(pre) + char(b) + c.of(post);
                     check(c, rs, {b == 255 ? 'x' : b, (b ^ 0x80) == 255 ? 'y' : b ^ 0x80, (b ^ 0x20) == 255 ? 'y' : b ^ 0x20, 'x', 0});
                 });
    mc::scenario("every byte in another locale", 16, [](Ctx& c)
                 {
                     std::string rs(1, char(c.choose(256)));
                     static const std::vector<std::string> pre{"", "x", "Ii", "\xa0"}, post{"", "\xe9\xc9", "\xb2 ", "zZ9"};
                     rs = c.of(pre) + rs + c.of(post);
                     mc::ForeignLocale l;
                     check(c, rs, {'i', 0xa0, 0xe9});
                 });
    mc::scenario("every-byte-pair", 16, [](Ctx& c)
                 {
                     std::string rs;
                     rs += char(c.choose(256));
                     rs += char(c.choose(256));
                     int k = (unsigned char)rs[0];
                     check(c, rs, {k == 255 ? 0 : k});
                 });
    mc::scenario("strip-every-char", 16, [](Ctx& c)
                 {
                     int k = c.choose(255);
                     static const std::vector<std::string> mid{"", "m", " ", "\xff", "a b"};
                     std::string ch(1, char(k));
                     std::string rs;
                     for (int i = c.choose(4); i > 0; --i)
                         rs += ch;
                     rs += c.of(mid);
                     if (c.flip())
                         rs += ch + "m";
                     for (int i = c.choose(4); i > 0; --i)
                         rs += ch;
                     check(c, rs, {k});
                 });
    int L = T ? 7 : 5;
    mc::scenario("words", 9, [L](Ctx& c)
                 {
                     static const std::string al(" \t\0xZ\x80\xa0\x21", 8);
                     std::string rs = word(c, al, L);
                     check(c, rs, {' ', 'x', 0, 0x80});
                 });
    mc::scenario("very long", 16, [](Ctx& c)
                 {
                     static const std::vector<int> ns{32767, 32768, 65535, 65536, 65537, 131073, 1048577};
                     int n = c.of(ns), kind = c.choose(4), inner = std::vector<int>{0, 1, 300, n}[c.choose(4)];
                     // blanks of that many on both sides, on the left, on the right, or none
                     std::string mid(inner, 0);
                     for (int i = 0; i < inner; ++i)
                         mid[i] = "aZ[z@ A{`\xc1\xe9"[i % 11];
                     check(c, (kind & 1 ? std::string(n, ' ') : "") + mid + (kind & 2 ? std::string(n, '\t') : ""), {' ', '\t', 'a'});
                 });
    static auto lg = long_strings({15, 16, 17, 33, 64, 65, 129, 257, 1000});
    mc::scenario("long", 8, [](Ctx& c)
                 {
                     std::string rs = c.of(lg);
                     static const std::vector<std::string> pad{"", " ", "\r\n\t \v\f", std::string(20, ' '), std::string(300, '\x01'), "\xc3\xa9", std::string(17, 'a')};
                     rs = c.of(pad) + rs + c.of(pad);
                     check(c, rs, {'a', 'b', 'A', ' ', 1});
                 });
}
