// parts: 4
// C36 - conversion constructors and ranges preserve the elements.
// All source contents up to a length x every kind of source (initializer list, standard container, iterators of every
// category from standard containers, from this library's containers, reversed, raw pointers, single-pass, over another
// element type) x every target: constructors, and extend* from all small states.
#include "confam.hpp"
#include "pyincpp.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
using namespace fam;
using namespace pyincpp;
using mc::quote;

namespace
{
// An input iterator over a stream of elements: every copy shares the position, an element can be read once.
template <class E>
struct Source
{
    std::vector<E> v;
    std::size_t pos = 0, reads = 0;
};
template <class E>
struct SinglePass
{
    typedef std::input_iterator_tag iterator_category;
    typedef E value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const E* pointer;
    typedef const E& reference;
    Source<E>* s = nullptr;
    reference operator*() const { return s->v.at(s->pos); }
    pointer operator->() const { return &s->v.at(s->pos); }
    SinglePass& operator++()
    {
        if (s->pos >= s->v.size())
            throw mc::Violation{"a single-pass range was read past its end"};
        s->pos++;
        return *this;
    }
    struct Post
    {
        E e;
        const E& operator*() const { return e; }
    };
    Post operator++(int)
    {
        Post p{**this};
        ++*this;
        return p;
    }
    bool at_end() const { return !s || s->pos >= s->v.size(); }
    bool operator==(const SinglePass& o) const { return at_end() == o.at_end(); }
};
static_assert(std::input_iterator<SinglePass<int>>);

enum Kind
{
    INIT,
    STD_SAME, // the standard container itself
    VECTOR,
    VECTOR_REVERSE,
    LIST,
    FORWARD,
    DEQUE,
    POINTERS,
    CONST_POINTERS,
    OWN_LIST,
    OWN_LIST_REVERSE,
    OWN_DEQUE,
    SINGLE_PASS,
    KINDS
};
const char* const kind_name[] = {"an initializer list", "the standard container", "a vector", "a vector, reversed", "a std::list", "a forward_list", "a std::deque", "pointers", "const pointers", "a List", "a List, reversed", "a Deque", "a single-pass range"};

// Calls f(first, last) with iterators over the elements v; returns whether the source is as before.
template <class E, class F>
void with_range(int kind, const std::vector<E>& v, F&& f)
{
    auto check = [&](const auto& c)
    {
        CHECK(std::equal(c.begin(), c.end(), v.begin(), v.end()), "the source changed");
    };
    std::vector<E> rev(v.rbegin(), v.rend());
    switch (kind)
    {
        case VECTOR:
        {
            std::vector<E> s = v;
            f(s.begin(), s.end());
            check(s);
            break;
        }
        case VECTOR_REVERSE:
        {
            std::vector<E> s = rev;
            f(s.rbegin(), s.rend());
            CHECK(s == rev, "the source changed");
            break;
        }
        case LIST:
        {
            const std::list<E> s(v.begin(), v.end());
            f(s.begin(), s.end());
            check(s);
            break;
        }
        case FORWARD:
        {
            std::forward_list<E> s(v.begin(), v.end());
            f(s.begin(), s.end());
            check(s);
            break;
        }
        case DEQUE:
        {
            std::deque<E> s(v.begin(), v.end());
            f(s.begin(), s.end());
            check(s);
            break;
        }
        case POINTERS:
        {
            std::unique_ptr<E[]> p(new E[v.size() + 1]);
            std::copy(v.begin(), v.end(), p.get());
            f(p.get(), p.get() + v.size());
            CHECK(std::equal(v.begin(), v.end(), p.get()), "the source changed");
            break;
        }
        case CONST_POINTERS:
        {
            const std::vector<E> s = v;
            f(static_cast<const E*>(s.data()), static_cast<const E*>(s.data()) + s.size());
            check(s);
            break;
        }
        case OWN_LIST:
        {
            List<E> s(v);
            f(s.begin(), s.end());
            check(s);
            break;
        }
        case OWN_LIST_REVERSE:
        {
            List<E> s(rev);
            f(s.rbegin(), s.rend());
            CHECK(std::equal(s.begin(), s.end(), rev.begin(), rev.end()), "the source changed");
            break;
        }
        case OWN_DEQUE:
        {
            Deque<E> s(std::deque<E>(v.begin(), v.end()));
            f(s.begin(), s.end());
            check(s);
            break;
        }
        case SINGLE_PASS:
        {
            Source<E> s{v};
            f(SinglePass<E>{&s}, SinglePass<E>{});
            CHECK(s.pos == v.size(), "a single-pass range was not read to its end");
            CHECK(s.v == v, "the source changed");
            break;
        }
    }
}
template <class E, class C>
C from_init(const std::vector<E>& v)
{
    switch (v.size())
    {
        case 0: return C(std::initializer_list<E>{});
        case 1: return C{v[0]};
        case 2: return C{v[0], v[1]};
        case 3: return C{v[0], v[1], v[2]};
        case 4: return C{v[0], v[1], v[2], v[3]};
        default: return C{v[0], v[1], v[2], v[3], v[4]};
    }
}
// The contents are the target's own: it changes, and the source stays.
template <class C>
std::string sequence(const C& c, const Seq& want)
{
    Seq got = keys(c);
    std::ostringstream o;
    if (got != want || c.size() != int(want.size()) || c.is_empty() != want.empty())
        o << "gives " << show(got) << " (size " << c.size() << ") instead of " << show(want);
    return o.str();
}
template <class E>
void sequences()
{
    std::string n = El<E>::name();
    mc::scenario("List<" + n + ">", KINDS, [](Ctx& c)
                 {
        int kind = c.choose(KINDS);
        Seq m = seq(c, 3, mc::G.tier ? 6 : 4);
        auto v = elems<E>(m);
        LOG(c, "List of " << show(m) << " from " << kind_name[kind]);
        auto check = [&](const List<E>& l, const Seq& want, const char* how)
        {
            std::string e = sequence(l, want);
            CHECK(e.empty(), how << " " << show(m) << " from " << kind_name[kind] << " " << e);
        };
        if (kind == INIT)
        {
            if (m.size() > 5)
                return;
            check(from_init<E, List<E>>(v), m, "List of");
            List<E> l = {El<E>::make(7)};
            l = from_init<E, List<E>>(v);
            check(l, m, "List assigned");
        }
        else if (kind == STD_SAME)
        {
            std::vector<E> s = v;
            List<E> l(s), k = s;
            k = s;
            check(l, m, "List of");
            check(k, m, "List of");
            l += El<E>::make(1);
            if (!k.is_empty())
                k[0] = El<E>::make(8);
            CHECK(s == v, "changing the list changed the vector it was made from");
            s.clear();
            l.remove(-1);
            check(l, m, "List of (the source is gone)");
        }
        else
        {
            with_range<E>(kind, v, [&](const auto& a, const auto& b) { List<E> l(a, b); check(l, m, "List of"); l += El<E>::make(1); l[0] = El<E>::make(3); });
            Seq before = seq(c, 2, 2);
            auto w = elems<E>(before);
            Seq want = before;
            want.insert(want.end(), m.begin(), m.end());
            with_range<E>(kind, v, [&](const auto& a, const auto& b) { List<E> l(w); l.extend(a, b); check(l, want, ("List " + show(before) + " extended by").c_str()); });
        }
        c.step();
        c.state(show(m) + kind_name[kind]); });
    mc::scenario("Deque<" + n + ">", KINDS, [](Ctx& c)
                 {
        int kind = c.choose(KINDS);
        Seq m = seq(c, 3, mc::G.tier ? 6 : 4);
        auto v = elems<E>(m);
        LOG(c, "Deque of " << show(m) << " from " << kind_name[kind]);
        auto check = [&](const Deque<E>& l, const Seq& want, const std::string& how)
        {
            std::string e = sequence(l, want);
            CHECK(e.empty(), how << " " << show(m) << " from " << kind_name[kind] << " " << e);
        };
        if (kind == INIT)
        {
            if (m.size() > 5)
                return;
            check(from_init<E, Deque<E>>(v), m, "Deque of");
        }
        else if (kind == STD_SAME)
        {
            std::deque<E> s(v.begin(), v.end()), t = s;
            Deque<E> l(s), k = s;
            check(l, m, "Deque of");
            l.push_front(El<E>::make(1));
            if (!k.is_empty())
                k.back() = El<E>::make(8);
            CHECK(s == t, "changing the deque changed the std::deque it was made from");
            s.clear();
            l.pop_front();
            check(l, m, "Deque of (the source is gone)");
        }
        else
        {
            with_range<E>(kind, v, [&](const auto& a, const auto& b) { Deque<E> l(a, b); check(l, m, "Deque of"); l.push_back(El<E>::make(1)); l.front() = El<E>::make(3); });
            Seq before = seq(c, 2, 2);
            auto w = elems<E>(before);
            Seq front = m, back = before;
            front.insert(front.end(), before.begin(), before.end());
            back.insert(back.end(), m.begin(), m.end());
            with_range<E>(kind, v, [&](const auto& a, const auto& b) { Deque<E> l(w.begin(), w.end()); l.extend_back(a, b); check(l, back, "Deque " + show(before) + " extended at the back by"); });
            with_range<E>(kind, v, [&](const auto& a, const auto& b) { Deque<E> l(w.begin(), w.end()); l.extend_front(a, b); check(l, front, "Deque " + show(before) + " extended at the front by"); });
            // also when the deque's memory wraps around
            with_range<E>(kind, v, [&](const auto& a, const auto& b)
                          {
                Deque<E> l;
                for (int i = 0; i < 200; ++i)
                    l.push_back(El<E>::make(5));
                for (int i = 0; i < 200; ++i)
                    l.pop_front();
                for (auto& e : w)
                    l.push_back(e);
                l.extend_front(a, b);
                l.extend_back(w.begin(), w.end());
                Seq want = front;
                want.insert(want.end(), before.begin(), before.end());
                check(l, want, "Deque " + show(before) + " (used) extended by"); });
        }
        c.step();
        c.state(show(m) + kind_name[kind]); });
}
template <class E>
void sets()
{
    std::string n = El<E>::name();
    mc::scenario("Set<" + n + ">", KINDS, [](Ctx& c)
                 {
        int kind = c.choose(KINDS);
        Seq m = seq(c, 3, mc::G.tier ? 6 : 4);
        auto v = elems<E>(m);
        std::set<int> u(m.begin(), m.end());
        LOG(c, "Set of " << show(m) << " from " << kind_name[kind]);
        auto check = [&](const Set<E>& l, const std::set<int>& want, const std::string& how)
        {
            std::string e = sequence(l, Seq(want.begin(), want.end()));
            CHECK(e.empty(), how << " " << show(m) << " from " << kind_name[kind] << " " << e);
            for (int k = 0; k < 4; ++k)
                CHECK(l.contains(El<E>::make(k)) == (want.count(k) == 1), how << " " << show(m) << " from " << kind_name[kind] << ": contains(" << k << ")");
        };
        if (kind == INIT)
        {
            if (m.size() > 5)
                return;
            check(from_init<E, Set<E>>(v), u, "Set of");
        }
        else if (kind == STD_SAME)
        {
            std::set<E> s(v.begin(), v.end()), t = s;
            Set<E> l(s), k = s;
            check(l, u, "Set of");
            k.add(El<E>::make(9));
            k.remove(El<E>::make(9));
            if (!k.is_empty())
                k.pop();
            CHECK(s == t, "changing the set changed the std::set it was made from");
            s.clear();
            check(l, u, "Set of (the source is gone)");
        }
        else
        {
            with_range<E>(kind, v, [&](const auto& a, const auto& b) { Set<E> l(a, b); check(l, u, "Set of"); l.add(El<E>::make(3)); });
            int bits = c.choose(8);
            Seq before;
            for (int k = 0; k < 3; ++k)
                if (bits >> k & 1)
                    before.push_back(k);
            auto w = elems<E>(before);
            std::set<int> want = u;
            want.insert(before.begin(), before.end());
            with_range<E>(kind, v, [&](const auto& a, const auto& b) { Set<E> l(w.begin(), w.end()); l.extend(a, b); check(l, want, "Set " + show(before) + " extended by"); });
        }
        c.step();
        c.state(show(m) + kind_name[kind]); });
}
// entries: key and value; a key may come more than once, the first one counts
template <class K, class X>
void dicts(const std::string& n)
{
    mc::scenario("Dict<" + n + ">", KINDS, [](Ctx& c)
                 {
        typedef std::pair<K, X> P;
        int kind = c.choose(KINDS);
        Seq ks = seq(c, 3, mc::G.tier ? 5 : 4);
        std::vector<P> v;
        std::map<int, int> u;
        for (std::size_t i = 0; i < ks.size(); ++i)
        {
            v.emplace_back(El<K>::make(ks[i]), El<X>::make(10 + i));
            u.insert({ks[i], 10 + int(i)});
        }
        LOG(c, "Dict of keys " << show(ks) << " from " << kind_name[kind]);
        auto check = [&](const Dict<K, X>& l, const std::map<int, int>& want, const std::string& how)
        {
            std::map<int, int> got;
            for (auto& [k, x] : l)
                got[El<K>::key(k)] = El<X>::key(x);
            auto text = [](const std::map<int, int>& m) { std::string o; for (auto& [k, x] : m) o += std::to_string(k) + ":" + std::to_string(x) + " "; return o; };
            CHECK(got == want && l.size() == int(want.size()), how << " the entries with keys " << show(ks) << ", values 10, 11, ..., from " << kind_name[kind] << " gives " << text(got) << " instead of " << text(want));
        };
        if (kind == INIT)
        {
            if (v.size() > 5)
                return;
            check(from_init<std::pair<const K, X>, Dict<K, X>>(std::vector<std::pair<const K, X>>(v.begin(), v.end())), u, "Dict of");
        }
        else if (kind == STD_SAME)
        {
            std::map<K, X> s(v.begin(), v.end()), t = s;
            Dict<K, X> l(s), k = s;
            check(l, u, "Dict of");
            if (!k.is_empty())
                k[k.min()] = El<X>::make(1), k.pop();
            CHECK(s == t, "changing the dictionary changed the map it was made from");
            s.clear();
            check(l, u, "Dict of (the source is gone)");
            check(Dict<K, X>(t.begin(), t.end()), u, "Dict of");
            std::vector<std::pair<const K, X>> fixed(t.begin(), t.end());
            check(Dict<K, X>(fixed.data(), fixed.data() + fixed.size()), u, "Dict of constant keys,");
            Dict<K, X> other(l.begin(), l.end());
            check(other, u, "Dict of the items of a Dict, made from");
            auto items = l.items();
            Dict<K, X> again(items.begin(), items.end());
            check(again, u, "Dict of items() of a Dict, made from");
        }
        else
        {
            with_range<P>(kind, v, [&](const auto& a, const auto& b) { Dict<K, X> l(a, b); check(l, u, "Dict of"); l.add(El<K>::make(3), El<X>::make(3)); });
            int bits = c.choose(8);
            std::map<int, int> before;
            for (int k = 0; k < 3; ++k)
                if (bits >> k & 1)
                    before.insert({k, k});
            std::map<int, int> want = before;
            want.insert(u.begin(), u.end());
            with_range<P>(kind, v, [&](const auto& a, const auto& b)
                          {
                Dict<K, X> l;
                for (auto& [k, x] : before)
                    l.add(El<K>::make(k), El<X>::make(x));
                l.extend(a, b);
                check(l, want, "Dict (bits " + std::to_string(bits) + ", value = key) extended by"); });
        }
        c.step();
        c.state(show(ks) + kind_name[kind]); });
}
} // namespace

MC_PART
{
#if PART == 0
    sequences<int>();
    sets<int>();
#elif PART == 1
    sequences<std::string>();
    sets<std::string>();
#elif PART == 2
    sequences<Tracked>();
    sequences<Padded>();
    sequences<Large>();
    sequences<Bulky>();
    sequences<signed char>();
    sets<Padded>();
    sets<Tracked>();
    mc::scenario("Str", 16, [](Ctx& c)
                 {
        static const char alphabet[] = {'a', '\0', '\xff', ' ', '"'};
        int len = c.choose(mc::G.tier ? 6 : 5);
        std::string s;
        for (int i = 0; i < len; ++i)
            s += alphabet[c.choose(5)];
        if (c.flip())
            s += std::string(40, 'x');
        LOG(c, quote(s));
        std::string src = s;
        Str a(src), b = src, d(src.c_str()), e = src.c_str();
        Str f;
        f = src;
        std::string cut = src.c_str();
        auto same = [&](const Str& x, const std::string& want, const char* how)
        { CHECK(std::string(x.begin(), x.end()) == want && x.size() == int(want.size()) && std::string(x.data(), x.size()) == want && std::string(x.rbegin(), x.rend()) == std::string(want.rbegin(), want.rend()), how << " of " << quote(s) << " is " << quote(std::string(x.begin(), x.end()))); };
        same(a, s, "Str(string)");
        same(b, s, "Str = string");
        same(f, s, "assigned string");
        same(d, cut, "Str(characters)");
        same(e, cut, "Str = characters");
        CHECK(src == s, "the source changed");
        src.assign(100, 'z');
        same(a, s, "Str(string), the source being changed,");
        // and into the other containers
        List<char> l(a.begin(), a.end());
        CHECK(std::string(l.begin(), l.end()) == s, "List of the characters of " << quote(s));
        Deque<char> q;
        q.extend_back(a.begin(), a.end());
        q.extend_front(a.rbegin(), a.rend());
        CHECK(std::string(q.begin(), q.end()) == std::string(s.rbegin(), s.rend()) + s, "Deque of the characters of " << quote(s));
        Set<char> st(a.begin(), a.end());
        std::set<char> ss(s.begin(), s.end());
        CHECK(std::equal(st.begin(), st.end(), ss.begin(), ss.end()), "Set of the characters of " << quote(s));
        c.step();
        c.state(s); });
#elif PART == 3
    dicts<int, std::string>("int, string");
    dicts<std::string, int>("string, int");
    dicts<Tracked, Tracked>("tracked, tracked");
    dicts<Padded, double>("padded, double");
    mc::scenario("text streams and other element types", 16, [](Ctx& c)
                 {
        Seq m = seq(c, 4, mc::G.tier ? 6 : 5);
        LOG(c, show(m));
        std::string text;
        for (int x : m)
            text += std::to_string(x * 37 - 50) + " ";
        Seq want;
        for (int x : m)
            want.push_back(x * 37 - 50);
        auto in = [&](auto&& f)
        {
            std::istringstream s(text);
            f(std::istream_iterator<int>(s), std::istream_iterator<int>());
            CHECK(s.eof(), "not read to the end");
        };
        auto same = [&](const auto& x, const Seq& w, const char* how)
        { CHECK(Seq(x.begin(), x.end()) == w && x.size() == int(w.size()), how << " of the numbers " << text << "gives " << show(Seq(x.begin(), x.end()))); };
        std::set<int> u(want.begin(), want.end());
        Seq sorted(u.begin(), u.end()), twice = want;
        twice.insert(twice.end(), want.begin(), want.end());
        in([&](auto a, auto b) { same(List<int>(a, b), want, "List"); });
        in([&](auto a, auto b) { same(Deque<int>(a, b), want, "Deque"); });
        in([&](auto a, auto b) { same(Set<int>(a, b), sorted, "Set"); });
        in([&](auto a, auto b) { List<int> l(want); l.extend(a, b); same(l, twice, "List, extended"); });
        in([&](auto a, auto b) { Deque<int> l(want.begin(), want.end()); l.extend_back(a, b); same(l, twice, "Deque, extended"); });
        in([&](auto a, auto b) { Deque<int> l(want.begin(), want.end()); l.extend_front(a, b); same(l, twice, "Deque, extended at the front"); });
        in([&](auto a, auto b) { Set<int> l; l.extend(a, b); same(l, sorted, "Set, extended"); });
        // other element types: converted one by one
        std::vector<short> sh(want.begin(), want.end());
        same(List<int>(sh.begin(), sh.end()), want, "List of shorts");
        same(Deque<long>(sh.begin(), sh.end()), want, "Deque of shorts");
        List<Int> big(sh.begin(), sh.end());
        List<Fraction> fr(big.size() ? sh.begin() : sh.end(), sh.end());
        CHECK(big.size() == int(want.size()) && fr.size() == int(want.size()), "List<Int>, List<Fraction> of shorts");
        for (int i = 0; i < big.size(); ++i)
            CHECK(big[i] == Int(want[i]) && fr[i] == Fraction(want[i]), "List<Int>, List<Fraction> of shorts: element " << i);
        static const char* words[] = {"", "b", "some longer text, on the heap", "\xff"};
        std::vector<const char*> cs;
        std::vector<std::string> ss;
        for (int x : m)
            cs.push_back(words[x]), ss.push_back(words[x]);
        List<Str> ls(cs.begin(), cs.end());
        Deque<std::string> ds(cs.begin(), cs.end());
        List<Str> lt(ss.begin(), ss.end());
        Set<std::string> st(cs.begin(), cs.end());
        CHECK(std::equal(ds.begin(), ds.end(), ss.begin(), ss.end()) && ls == lt && ls.size() == int(ss.size()), "List<Str>, Deque<string> of characters");
        for (int i = 0; i < ls.size(); ++i)
            CHECK(ls[i] == Str(words[m[i]]), "List<Str> of characters: element " << i);
        CHECK(st.size() == int(std::set<int>(m.begin(), m.end()).size()), "Set<string> of characters");
        // one container of this library into another
        List<int> l(want);
        Set<int> s2(l.begin(), l.end());
        Deque<int> d2(s2.rbegin(), s2.rend());
        List<int> l2(d2.rbegin(), d2.rend());
        same(l2, sorted, "List of the reversed Deque of the reversed Set of the List");
        c.step(16);
        c.state(show(m)); });
    mc::scenario("very long texts and ranges", 8, [](Ctx& c)
                 {
        static const std::vector<int> ns{255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 200000, 1048577};
        int n = c.of(ns), kind = c.choose(3);
        std::string t(n, 'x');
        for (int i = 0; kind && i < n; ++i)
            t[i] = char(1 + (i * kind * 7 + i / 251) % 255);
        LOG(c, n << " characters of kind " << kind);
        const Str a(t.c_str()), b(t), d = a;
        CHECK(std::string(a.begin(), a.end()) == t && a.size() == n && std::string(a.data()) == t, "Str from " << n << " characters has " << a.size());
        CHECK(std::string(b.begin(), b.end()) == t && b.size() == n && d == b, "Str from a string of " << n << " has " << b.size());
        std::string z = t;
        z[n / 2] = 0;
        const Str e(z);
        CHECK(std::string(e.begin(), e.end()) == z, "Str with a null character inside");
        if (n <= 65536 || mc::G.tier)
        {
            Seq m = structured(n, 0);
            List<int> l(m.begin(), m.end());
            Deque<int> q(m.begin(), m.end());
            Set<int> s(m.rbegin(), m.rend());
            CHECK(std::equal(l.begin(), l.end(), m.begin(), m.end()) && l.size() == n, "List");
            CHECK(std::equal(q.begin(), q.end(), m.begin(), m.end()) && q.size() == n, "Deque");
            CHECK(std::equal(s.begin(), s.end(), m.begin(), m.end()) && s.size() == n, "Set");
            l.extend(m.begin(), m.end());
            q.extend_front(m.rbegin(), m.rend());
            CHECK(l.size() == 2 * n && std::equal(l.begin() + n, l.end(), m.begin(), m.end()), "extended List");
            CHECK(q.size() == 2 * n && std::equal(q.begin(), q.begin() + n, m.rbegin(), m.rend()), "extended Deque");
        }
        c.step(4);
        c.state(n * 3 + kind); });
    mc::scenario("long ranges", 16, [](Ctx& c)
                 {
        int n = c.choose(mc::G.tier ? 700 : 140), kind = VECTOR + c.choose(KINDS - VECTOR), pre = c.choose(4) * 13;
        Seq m = structured(n, 2), p = structured(pre, 0), back = p, front = m;
        back.insert(back.end(), m.begin(), m.end());
        front.insert(front.end(), p.begin(), p.end());
        std::set<int> u(m.begin(), m.end());
        LOG(c, n << " elements from " << kind_name[kind] << ", " << pre << " before");
        auto same = [&](const auto& x, const Seq& w, const char* how)
        { CHECK(Seq(x.begin(), x.end()) == w && x.size() == int(w.size()), how << " (" << n << " elements from " << kind_name[kind] << ", " << pre << " before) is wrong"); };
        with_range<int>(kind, m, [&](const auto& a, const auto& b) { same(List<int>(a, b), m, "List"); });
        with_range<int>(kind, m, [&](const auto& a, const auto& b) { same(Deque<int>(a, b), m, "Deque"); });
        with_range<int>(kind, m, [&](const auto& a, const auto& b) { same(Set<int>(a, b), Seq(u.begin(), u.end()), "Set"); });
        with_range<int>(kind, m, [&](const auto& a, const auto& b) { List<int> l(p); l.extend(a, b); same(l, back, "List, extended"); });
        with_range<int>(kind, m, [&](const auto& a, const auto& b) { Deque<int> l(p.begin(), p.end()); l.extend_back(a, b); same(l, back, "Deque, extended"); });
        with_range<int>(kind, m, [&](const auto& a, const auto& b) { Deque<int> l(p.begin(), p.end()); l.extend_front(a, b); same(l, front, "Deque, extended at the front"); });
        c.step(6);
        c.state(std::to_string(n) + kind_name[kind] + std::to_string(pre)); });
#endif
}
