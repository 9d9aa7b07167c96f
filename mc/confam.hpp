// confam.hpp - elements and helpers for the container checks.
#pragma once
#include "support.hpp"
#include <compare>
#include <cstring>

namespace fam
{
using mc::Ctx;
using mc::outcome_of;
using mc::show;
using mc::Tracked;
typedef std::vector<int> Seq;

// Elements are made from small keys; key() reads the key back (-1: not a value make() ever returns).
template <class E>
struct El;
template <>
struct El<int>
{
    static int make(int k) { return k; }
    static int key(int e) { return e; }
    static const char* name() { return "int"; }
};
template <>
struct El<std::string> // always on the heap; order of keys = order of values for 0 <= k < 100000
{
    static std::string make(int k)
    {
        char b[40];
        std::snprintf(b, sizeof b, "a longer element no. %05d", k);
        return b;
    }
    static int key(const std::string& e)
    {
        return e.size() == 26 ? std::atoi(e.c_str() + 21) : -1;
    }
    static const char* name() { return "string"; }
};
template <>
struct El<Tracked>
{
    static Tracked make(int k) { return Tracked(k, k); }
    static int key(const Tracked& e) { return e.get(); }
    static const char* name() { return "tracked"; }
};

// Trivially copyable, but neither equality nor order is that of the bytes: what is not compared is different each time.
struct Padded
{
    signed char junk;
    int v;
    friend bool operator==(const Padded& a, const Padded& b) { return a.v == b.v; }
    friend std::strong_ordering operator<=>(const Padded& a, const Padded& b) { return a.v <=> b.v; }
    friend std::ostream& operator<<(std::ostream& os, const Padded& p) { return os << p.v; }
};
static_assert(std::is_trivially_copyable_v<Padded>);
template <>
struct El<Padded>
{
    static Padded make(int k)
    {
        static unsigned char turn = 0;
        Padded p;
        std::memset(&p, ++turn, sizeof p);
        p.junk = -turn;
        p.v = k * 1000 - 1500;
        return p;
    }
    static int key(const Padded& e) { return (e.v + 1500) / 1000; }
    static const char* name() { return "padded"; }
};
template <>
struct El<double> // two representations of zero
{
    static double make(int k)
    {
        static bool turn = false;
        turn = !turn;
        return k == 1 ? (turn ? 0.0 : -0.0) : (k - 1) * 0.25;
    }
    static int key(double e) { return int(std::lround(e * 4)) + 1; }
    static const char* name() { return "double"; }
};
template <>
struct El<signed char> // for 0 <= k < 130
{
    static signed char make(int k) { return k - 2; }
    static int key(signed char e) { return e + 2; }
    static const char* name() { return "signed char"; }
};

// Large; what is not compared is different each time.
struct Large
{
    int v;
    unsigned char junk[300];
    friend bool operator==(const Large& a, const Large& b) { return a.v == b.v; }
    friend std::strong_ordering operator<=>(const Large& a, const Large& b) { return a.v <=> b.v; }
    friend std::ostream& operator<<(std::ostream& os, const Large& p) { return os << p.v; }
};
static_assert(std::is_trivially_copyable_v<Large>);
template <>
struct El<Large>
{
    static Large make(int k)
    {
        static unsigned char turn = 0;
        Large p;
        std::memset(p.junk, ++turn, sizeof p.junk);
        p.v = k * 1000 - 1500;
        return p;
    }
    // each byte belongs to the same make()
    static int key(const Large& e) { return std::all_of(e.junk, e.junk + sizeof e.junk, [&](unsigned char x) { return x == e.junk[0]; }) ? (e.v + 1500) / 1000 : -1; }
    static const char* name() { return "large"; }
};
// Large, owns memory, can be copied but not moved.
struct Bulky
{
    int v = 0;
    std::string owned[3];
    Bulky() = default;
    Bulky(const Bulky&) = default;
    Bulky& operator=(const Bulky&) = default;
    friend bool operator==(const Bulky& a, const Bulky& b) { return a.v == b.v; }
    friend std::strong_ordering operator<=>(const Bulky& a, const Bulky& b) { return a.v <=> b.v; }
    friend std::ostream& operator<<(std::ostream& os, const Bulky& p) { return os << p.v; }
};
template <>
struct El<Bulky>
{
    static std::string text(int k, int i) { return std::to_string(k) + (i == 2 ? " and more than fits in place" : "."); }
    static Bulky make(int k)
    {
        Bulky p;
        p.v = k;
        for (int i = 0; i < 3; ++i)
            p.owned[i] = text(k, i);
        return p;
    }
    static int key(const Bulky& e) { return e.owned[0] == text(e.v, 0) && e.owned[1] == text(e.v, 1) && e.owned[2] == text(e.v, 2) ? e.v : -1; }
    static const char* name() { return "bulky"; }
};

template <class E>
std::vector<E> elems(const Seq& m)
{
    std::vector<E> v;
    v.reserve(m.size());
    for (int k : m)
        v.push_back(El<E>::make(k));
    return v;
}
template <class R>
Seq keys(const R& r)
{
    Seq s;
    for (const auto& e : r)
        s.push_back(El<std::decay_t<decltype(e)>>::key(e));
    return s;
}
// Every sequence over 0..k-1 up to a length.
inline Seq seq(Ctx& c, int k, int maxlen)
{
    Seq s;
    for (int i = 0; i < maxlen; ++i)
    {
        int x = c.choose(k + 1);
        if (x == 0)
            break;
        s.push_back(x - 1);
    }
    return s;
}
inline Seq structured(int n, int kind)
{
    Seq s(n);
    for (int i = 0; i < n; ++i)
        s[i] = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? int(i * 7919ll % 101) : kind == 3 ? (i % 3) : 5;
    return s;
}
inline int position(Ctx& c, int n, int margin = 2)
{
    static const int ext[] = {INT_MIN, INT_MIN + 1, INT_MAX - 1, INT_MAX, -1000000000, 1000000000};
    int span = 2 * (n + margin) + 1;
    int k = c.choose(span + 6);
    return k < span ? k - (n + margin) : ext[k - span];
}
// An input iterator in the strictest sense: single pass.
template <class E>
struct SinglePass
{
    typedef std::input_iterator_tag iterator_category;
    typedef E value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const E* pointer;
    typedef const E& reference;
    struct State
    {
        std::vector<E> v;
        std::size_t i = 0;
        bool stale = false;
    };
    State* s = nullptr;
    std::size_t at = 0;
    const E& operator*() const
    {
        if (at != s->i)
            s->stale = true;
        return s->v[s->i];
    }
    SinglePass& operator++()
    {
        if (at != s->i)
            s->stale = true;
        at = ++s->i;
        return *this;
    }
    struct Proxy
    {
        E e;
        const E& operator*() const { return e; }
    };
    Proxy operator++(int)
    {
        Proxy p{**this};
        ++*this;
        return p;
    }
    friend bool operator==(const SinglePass& a, const SinglePass& b)
    {
        auto done = [](const SinglePass& x) { return !x.s || x.s->i >= x.s->v.size(); };
        return done(a) == done(b);
    }
};
// A sequence container holds exactly m, by every observer.
template <class Con>
void same_seq(const Con& l, const Seq& m, const char* what, bool deep = true)
{
    typedef std::decay_t<decltype(*l.begin())> E;
    int n = m.size();
    CHECK(l.size() == n, what << ": size " << l.size() << ", expected " << show(m) << ", got " << show(keys(l)));
    CHECK(keys(l) == m, what << ": got " << show(keys(l)) << ", expected " << show(m));
    CHECK(l.is_empty() == m.empty(), what << ": is_empty");
    if (!deep)
        return;
    Seq r;
    for (auto it = l.rbegin(); it != l.rend(); ++it)
        r.push_back(El<E>::key(*it));
    CHECK(std::equal(r.rbegin(), r.rend(), m.begin(), m.end()), what << ": reverse iteration");
    for (int i = 0; i < n; ++i)
        CHECK(El<E>::key(l[i]) == m[i] && El<E>::key(l[i - n]) == m[i], what << ": index " << i);
}
} // namespace fam
