// parts: 4
// C35 - lists, deques and strings compare lexicographically; sets and dictionaries are equal when their contents are.
// All pairs of sequences up to a length, of long sequences that differ in one place, nested; each built in several
// ways (capacity, rotation, insertion order must not matter). Agreement of every comparison with one total order on
// every pair gives transitivity and trichotomy.
#include "confam.hpp"
#include "pyincpp.hpp"
using namespace fam;
using namespace pyincpp;
using mc::quote;

namespace
{
void put(std::string& s, int x) { s.append(reinterpret_cast<const char*>(&x), sizeof x); }
void put(std::string& s, const std::string& x) { put(s, int(x.size())), s += x; }
void put(std::string& s, const Seq& x)
{
    put(s, int(x.size()));
    for (int k : x)
        put(s, k);
}
template <class... X>
void mark(Ctx& c, const X&... x)
{
    std::string s;
    (put(s, x), ...);
    c.state(s);
}
// want: -1, 0, 1
template <class T>
void compare(const T& a, const T& b, int want, const std::function<std::string()>& what)
{
    auto wrong = [&](const char* op, bool got)
    {
        std::ostringstream o;
        o << what() << ": " << op << " is " << got;
        throw mc::Violation{o.str()};
    };
#define REL(op)                         \
    if (bool(a op b) != (want op 0))    \
        wrong(#op, a op b);             \
    if (bool(b op a) != (0 op want))    \
        wrong("(swapped) " #op, b op a);
    REL(==)
    REL(!=)
    REL(<)
    REL(<=)
    REL(>)
    REL(>=)
    auto c = a <=> b;
    if ((c < 0) != (want < 0) || (c == 0) != (want == 0) || (c > 0) != (want > 0))
        wrong("<=>", false);
}
int order(const Seq& a, const Seq& b)
{
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (a[i] != b[i])
            return a[i] < b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
// Every way to come to the same contents.
template <class E>
List<E> list(const Seq& s, int how)
{
    auto v = elems<E>(s);
    List<E> l;
    if (how == 0)
        return List<E>(v.begin(), v.end());
    for (auto& e : v)
        l += e;
    if (how == 1) // spare capacity
    {
        for (int i = 0; i < 9; ++i)
            l += El<E>::make(2);
        l.erase(int(s.size()), l.size());
    }
    else // inserted backwards into something that is gone
    {
        l = List<E>{El<E>::make(1), El<E>::make(1), El<E>::make(1)};
        l.clear();
        for (int i = int(s.size()) - 1; i >= 0; --i)
            l.insert(0, v[i]);
    }
    return l;
}
template <class E>
Deque<E> deque(const Seq& s, int how)
{
    auto v = elems<E>(s);
    if (how == 0)
        return Deque<E>(v.begin(), v.end());
    Deque<E> d;
    if (how == 1) // from the other end, after some traffic
    {
        for (int i = 0; i < 40; ++i)
            d.push_back(El<E>::make(1));
        for (int i = 0; i < 40; ++i)
            d.pop_front();
        for (int i = int(s.size()) - 1; i >= 0; --i)
            d.push_front(v[i]);
    }
    else
    {
        for (auto& e : v)
            d.push_back(e);
        d <<= 1;
        d >>= 1;
    }
    return d;
}
Str str(const std::string& s, int how)
{
    if (how == 0)
        return Str(s);
    Str t("");
    for (char ch : s)
        t = t + ch;
    if (how == 2 && !s.empty())
        t = (Str("0123456789012345678901234567890123456789") + t).slice(40, 40 + int(s.size()));
    return t;
}
std::string text(const std::string& n, const Seq& a, const Seq& b, int h, int g)
{
    return n + " " + show(a) + " and " + show(b) + " (built in ways " + std::to_string(h) + ", " + std::to_string(g) + ")";
}
template <class E>
void sequences(const std::string& name, int k, int quick, int thorough)
{
    for (int which = 0; which < 2; ++which)
        mc::scenario((which ? "Deque<" : "List<") + name + ">", 16, [=](Ctx& c)
                     {
            int len = mc::G.tier ? thorough : quick;
            Seq a = seq(c, k, len), b = seq(c, k, len);
            int h = c.choose(3), g = (h + c.choose(2)) % 3;
            LOG(c, text(name, a, b, h, g));
            auto what = [&] { return (which ? "Deque " : "List ") + text(name, a, b, h, g); };
            if (which)
                compare(deque<E>(a, h), deque<E>(b, g), order(a, b), what);
            else
                compare(list<E>(a, h), list<E>(b, g), order(a, b), what);
            c.step();
            mark(c, which, a, b); });
    mc::scenario("long sequences of " + name, 8, [=](Ctx& c)
                 {
        static const int sizes[] = {1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 513};
        int n = sizes[c.choose(mc::G.tier ? 18 : 14)], m = n - c.choose(3);
        if (m < 0)
            return;
        int kind = c.choose(4), at = c.choose(m + 1), d = c.choose(2) * 2 - 1;
        Seq a = structured(n, kind), b(a.begin(), a.begin() + m);
        if (at < m) // one element differs; after it everything does
        {
            b[at] += d;
            if (b[at] < 0)
                return;
            if (c.flip())
                for (int i = at + 1; i < m; ++i)
                    b[i] = d > 0 ? 0 : 1000;
        }
        if (sizeof(E) == 1)
            for (auto* s : {&a, &b})
                for (int& x : *s)
                    x = std::min(x, 120);
        LOG(c, name << " " << n << " " << m << " " << kind << " " << at << " " << d);
        auto what = [&] { return text(name + " (" + std::to_string(n) + " elements, differing at " + std::to_string(at) + ")", a, b, 0, 1); };
        compare(list<E>(a, 0), list<E>(b, 1), order(a, b), what);
        compare(deque<E>(a, 0), deque<E>(b, 1), order(a, b), what);
        c.step(2);
        mark(c, a, b); });
}
// One is a prefix of the other (or the last common element differs): sizes far apart, around powers of two.
template <class E>
void prefixes(const std::string& name)
{
    mc::scenario("prefixes of " + name, 16, [=](Ctx& c)
                 {
        static const std::vector<int> sizes = []
        {
            std::vector<int> v;
            for (int n : {0, 1, 8, 16, 32, 64, 100, 128, 256, 300, 512, 768, 1024, 32768, 65536, 131072})
                for (int d = -1; d <= 1; ++d)
                    if (n + d >= 0 && (v.empty() || v.back() < n + d))
                        v.push_back(n + d);
            return v;
        }();
        int few = mc::G.tier ? int(sizes.size()) : int(sizes.size()) - 6;
        int n = sizes[c.choose(few)], m = sizes[c.choose(few)], last = c.choose(3) - 1;
        Seq a = structured(n, 2), b = structured(m, 2);
        int common = std::min(n, m);
        if (last && common)
            b[common - 1] = a[common - 1] + last;
        else if (last)
            return;
        LOG(c, name << " " << n << " " << m << " " << last);
        int want = last > 0 ? -1 : last < 0 ? 1 : n < m ? -1 : n > m;
        if (common && b[common - 1] < 0)
            return;
        auto what = [&] { return "the first elements of one sequence, " + std::to_string(n) + " and " + std::to_string(m) + " of them, the last common one differing by " + std::to_string(last); };
        compare(list<E>(a, 0), list<E>(b, 0), want, what);
        compare(deque<E>(a, 0), deque<E>(b, 0), want, what);
        std::string x(n, 'q'), y(m, 'q');
        if (common)
            y[common - 1] += last;
        compare(Str(x), Str(y), want, what);
        c.step(3);
        mark(c, name, n, m, last); });
}
int border(const std::string& a, const std::string& b)
{
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (a[i] != b[i])
            return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template <class T, class M>
void equal_only(const T& a, const T& b, const M& ma, const M& mb, const std::function<std::string()>& what)
{
    bool want = ma == mb;
    CHECK((a == b) == want && (b == a) == want && (a != b) == !want && (b != a) == !want, what() << ": equality is " << !want);
}
template <class E>
Set<E> set(const Seq& s, int how)
{
    Set<E> r;
    auto v = elems<E>(s);
    if (how == 1)
        std::reverse(v.begin(), v.end());
    if (how == 2)
        return Set<E>(v.begin(), v.end());
    for (auto& e : v)
        r.add(e);
    if (how == 1)
    {
        r.add(El<E>::make(50));
        r.remove(El<E>::make(50));
    }
    return r;
}
template <class E>
void sets(const std::string& name)
{
    mc::scenario("Set<" + name + ">", 16, [=](Ctx& c)
                 {
        int n = mc::G.tier ? 7 : 6;
        int x = c.choose(1 << n), y = c.choose(1 << n), h = c.choose(3), g = c.choose(3);
        Seq a, b;
        for (int i = 0; i < n; ++i)
        {
            if (x >> i & 1)
                a.push_back(i * 5 % n);
            if (y >> i & 1)
                b.push_back(i * 5 % n);
        }
        LOG(c, text(name, a, b, h, g));
        equal_only(set<E>(a, h), set<E>(b, g), x, y, [&] { return "Set " + text(name, a, b, h, g); });
        c.step();
        mark(c, x, y); });
}
template <class K, class X>
Dict<K, X> dict(const Seq& s, int how) // s[k] - 1: the value of k, -1 for none
{
    Dict<K, X> d;
    int n = s.size();
    for (int i = 0; i < n; ++i)
    {
        int k = how == 1 ? n - 1 - i : i;
        if (s[k])
        {
            if (how == 2)
            {
                d.add(El<K>::make(k), El<X>::make(9));
                d[El<K>::make(k)] = El<X>::make(s[k] - 1);
            }
            else
                d.add(El<K>::make(k), El<X>::make(s[k] - 1));
        }
        else if (how == 1)
        {
            d.add(El<K>::make(k), El<X>::make(1));
            d.remove(El<K>::make(k));
        }
    }
    return d;
}
template <class K, class X>
void dicts(const std::string& name)
{
    mc::scenario("Dict<" + name + ">", 27, [=](Ctx& c)
                 {
        int n = mc::G.tier ? 5 : 4;
        Seq a(n), b(n);
        for (auto& x : a)
            x = c.choose(3);
        for (auto& x : b)
            x = c.choose(3);
        int h = c.choose(3), g = c.choose(3);
        LOG(c, text(name, a, b, h, g));
        equal_only(dict<K, X>(a, h), dict<K, X>(b, g), a, b, [&] { return "Dict " + text(name, a, b, h, g); });
        c.step();
        mark(c, a, b); });
}
} // namespace

MC_PART
{
#if PART == 0
    sequences<int>("int", 3, 4, 5);
    sequences<double>("double", 3, 4, 5);
    prefixes<int>("int");
#elif PART == 1
    sequences<std::string>("string", 3, 4, 5);
    sets<std::string>("string");
    sequences<signed char>("char", 3, 4, 5);
    dicts<std::string, int>("string, int");
#elif PART == 2
    sequences<Padded>("padded", 3, 4, 5);
    sets<Padded>("padded");
    sequences<Large>("large", 3, 3, 4);
    sequences<Bulky>("bulky", 3, 3, 4);
    sets<double>("double");
    dicts<Padded, Padded>("padded, padded");
    dicts<signed char, double>("char, double");
    mc::scenario("Str", 36, [](Ctx& c)
                 {
        static const char alphabet[] = {0, 'a', 'b', '\x7f', '\x80', '\xff'};
        int len = mc::G.tier ? 4 : 3;
        auto word = [&]
        {
            std::string s;
            for (int i = 0; i < len; ++i)
            {
                int k = c.choose(7);
                if (k == 0)
                    break;
                s += alphabet[k - 1];
            }
            return s;
        };
        std::string a = word(), b = word();
        int h = c.choose(3), g = (h + c.choose(2)) % 3;
        LOG(c, quote(a) << " " << quote(b));
        compare(str(a, h), str(b, g), border(a, b), [&] { return "Str " + quote(a) + " and " + quote(b); });
        c.step();
        mark(c, a, b); });
    mc::scenario("every pair of bytes", 16, [](Ctx& c)
                 {
        int x = c.choose(256), y = c.choose(256), shape = c.choose(4);
        static const std::string pre[] = {"", "a", "some longer text, \xff\x80 on the heap"};
        std::string a = pre[shape % 3], b = a;
        a += char(x);
        b += char(y);
        if (shape == 3)
            a += "tail", b += "other tail";
        LOG(c, quote(a) << " " << quote(b));
        compare(Str(a), Str(b), border(a, b), [&] { return "Str " + quote(a) + " and " + quote(b); });
        c.step();
        mark(c, a, b); });
    mc::scenario("long strings", 8, [](Ctx& c)
                 {
        int n = 1 + c.choose(mc::G.tier ? 130 : 70), m = n - c.choose(3);
        if (m < 0)
            return;
        int at = c.choose(m + 1), d = c.choose(3), fill = c.choose(3);
        std::string a(n, "a\0\xff"[fill]), b = a.substr(0, m);
        if (at < m)
        {
            b[at] = "b\x80\0"[d];
            if (c.flip())
                std::fill(b.begin() + at + 1, b.end(), char(1));
        }
        LOG(c, quote(a) << " " << quote(b));
        compare(str(a, 0), str(b, 1), border(a, b), [&] { return "Str " + quote(a) + " and " + quote(b); });
        c.step();
        mark(c, a, b); });
    sets<int>("int");
    dicts<int, std::string>("int, string");
#elif PART == 3
    mc::scenario("lists and deques of lists", 31, [](Ctx& c)
                 {
        auto make = [&]
        {
            std::vector<Seq> n;
            for (int i = 0; i < (mc::G.tier ? 4 : 3); ++i)
            {
                int k = c.choose(8); // [] [0] [1] [0,0] [0,1] [1,0] [1,1], or the end
                if (k == 7)
                    break;
                n.push_back(k == 0 ? Seq{} : k < 3 ? Seq{k - 1} : Seq{(k - 3) >> 1, (k - 3) & 1});
            }
            return n;
        };
        auto a = make(), b = make();
        int want = 0;
        for (std::size_t i = 0; i < a.size() && i < b.size() && !want; ++i)
            want = order(a[i], b[i]);
        if (!want)
            want = a.size() < b.size() ? -1 : a.size() > b.size();
        auto what = [&]
        {
            std::string s = "nested";
            for (auto* n : {&a, &b})
            {
                s += " [";
                for (auto& x : *n)
                    s += show(x) + " ";
                s += "]";
            }
            return s;
        };
        LOG(c, what());
        List<List<int>> la, lb;
        Deque<Deque<int>> da, db;
        List<Str> sa, sb;
        auto word = [](const Seq& s) { std::string t; for (int x : s) t += char(x ? 0xe0 : 'b'); return Str(t); };
        for (auto& s : a)
            la += list<int>(s, 1), da.push_back(deque<int>(s, 1)), sa += word(s);
        for (auto& s : b)
            lb += list<int>(s, 2), db.push_back(deque<int>(s, 2)), sb += word(s);
        compare(la, lb, want, what);
        compare(da, db, want, what);
        compare(sa, sb, want, what);
        c.step(3);
        mark(c, what()); });
    mc::scenario("sequences of Int and Fraction", 16, [](Ctx& c)
                 {
        Seq a = seq(c, 4, mc::G.tier ? 4 : 3), b = seq(c, 4, mc::G.tier ? 4 : 3);
        LOG(c, show(a) << show(b));
        static const char* ints[] = {"-10000000000", "-1", "0", "10000000000"};
        static const int nums[] = {-7, -1, 0, 5};
        List<Int> la, lb;
        Deque<Fraction> da, db;
        for (int x : a)
            la += Int(ints[x]), da.push_back(Fraction(nums[x], 3));
        for (int x : b)
            lb += Int(ints[x]), db.push_back(Fraction(nums[x], 3));
        auto what = [&] { return text("of numbers", a, b, 0, 0); };
        compare(la, lb, order(a, b), what);
        compare(da, db, order(a, b), what);
        c.step(2);
        mark(c, a, b); });
    mc::scenario("sets and dictionaries with containers inside", 16, [](Ctx& c)
                 {
        int x = c.choose(64), y = c.choose(64);
        Set<List<int>> a, b;
        Dict<Str, List<int>> p, q;
        for (int i = 0; i < 6; ++i)
        {
            List<int> l;
            for (int j = 0; j < i; ++j)
                l += j % 2;
            if (x >> i & 1)
                a.add(l);
            if (y >> (5 - i) & 1)
                b.add(l);
            std::string k(1, char('a' + i % 3));
            if (x >> i & 1)
                p.add(Str(k), List<int>{i / 3});
            if (y >> (5 - i) & 1)
                q.add(Str(k), List<int>{i / 3});
        }
        std::set<int> ma, mb;
        std::map<int, int> mp, mq;
        for (int i = 0; i < 6; ++i)
        {
            if (x >> i & 1)
                ma.insert(i), mp.insert({i % 3, i / 3});
            if (y >> (5 - i) & 1)
                mb.insert(i), mq.insert({i % 3, i / 3});
        }
        LOG(c, x << " " << y);
        auto what = [&] { return "nested set or dict " + std::to_string(x) + " " + std::to_string(y); };
        equal_only(a, b, ma, mb, what);
        equal_only(p, q, mp, mq, what);
        c.step(2);
        mark(c, x, y); });
#endif
}
