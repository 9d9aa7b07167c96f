// parts: 4
// C28 - Tuples compare, project and print element-wise.
#include "confam.hpp"
#include "tuple.hpp"
#include "list.hpp"
#include "str.hpp"
#include <optional>
using namespace fam;
using pyincpp::Tuple;

namespace
{
template <class T>
T val(int k)
{
    if constexpr (std::is_same_v<T, std::string>)
        return El<std::string>::make(k);
    else if constexpr (std::is_same_v<T, Tracked>)
        return Tracked(k, k);
    else if constexpr (std::is_same_v<T, char>)
        return char('a' + k);
    else if constexpr (std::is_same_v<T, bool>)
        return k != 0;
    else if constexpr (std::is_same_v<T, Tuple<int, std::string>>)
        return Tuple<int, std::string>(k / 2, El<std::string>::make(k % 2));
    else if constexpr (std::is_same_v<T, Tuple<int>>)
        return Tuple<int>(k);
    else if constexpr (std::is_same_v<T, Tuple<>>)
        return Tuple<>();
    else if constexpr (std::is_same_v<T, pyincpp::List<int>>)
        return k == 0 ? T{} : k == 1 ? T{1, 2} : T{1, 3};
    else
        return T(k);
}
// what val<T>(k) prints as
template <class T>
std::string txt(int k)
{
    if constexpr (std::is_same_v<T, std::string>)
        return El<std::string>::make(k);
    else if constexpr (std::is_same_v<T, char>)
        return std::string(1, char('a' + k));
    else if constexpr (std::is_same_v<T, bool>)
        return k != 0 ? "1" : "0";
    else if constexpr (std::is_same_v<T, Tuple<int, std::string>>)
        return "(" + std::to_string(k / 2) + ", " + El<std::string>::make(k % 2) + ")";
    else if constexpr (std::is_same_v<T, Tuple<int>>)
        return "(" + std::to_string(k) + ",)";
    else if constexpr (std::is_same_v<T, Tuple<>>)
        return "()";
    else if constexpr (std::is_same_v<T, pyincpp::List<int>>)
        return k == 0 ? "[]" : k == 1 ? "[1, 2]" : "[1, 3]";
    else
        return std::to_string(k);
}
// do val<T>(i) and val<T>(j) count as the same element?
template <class T>
bool same(int i, int j)
{
    if constexpr (std::is_same_v<T, Tuple<>>)
        return true;
    else if constexpr (std::is_same_v<T, bool>)
        return (i != 0) == (j != 0);
    else
        return i == j;
}

template <class... T>
struct TL
{
    static constexpr int n = sizeof...(T);
    typedef Tuple<T...> Tup;
    static Tup make(const Seq& k)
    {
        return make_(k, std::index_sequence_for<T...>());
    }
    static std::string text(const Seq& k)
    {
        if (n == 0)
            return "()";
        std::string s = "(";
        int i = 0;
        ((s += (i ? ", " : "") + txt<T>(k[i]), ++i), ...);
        return s + (n == 1 ? ",)" : ")");
    }
    static bool eq(const Seq& a, const Seq& b)
    {
        int i = 0;
        bool r = true;
        ((r = r && same<T>(a[i], b[i]), ++i), ...);
        return r;
    }

private:
    template <std::size_t... I>
    static Tup make_(const Seq& k, std::index_sequence<I...>)
    {
        return Tup(val<T>(k[I])...);
    }
};
// every element, the rest and the size, recursively through rest()
template <class... T>
void observe(const Tuple<T...>& t, const Seq& k, const char* what)
{
    constexpr int n = sizeof...(T);
    CHECK(t.size() == n, what << ": size " << t.size() << ", expected " << n);
    CHECK(mc::str(t) == TL<T...>::text(k), what << ": prints " << mc::str(t) << ", expected " << TL<T...>::text(k));
    if constexpr (n > 0)
    {
        auto each = [&]<std::size_t... I>(std::index_sequence<I...>)
        {
            (([&]
              {
                typedef std::tuple_element_t<I, std::tuple<T...>> E;
                static_assert(std::is_same_v<std::decay_t<decltype(t.template get<int(I)>())>, E>);
                E e = val<E>(k[I]);
                CHECK(t.template get<int(I)>() == e, what << ": get<" << I << "> of " << TL<T...>::text(k)); }()),
             ...);
        };
        each(std::index_sequence_for<T...>());
        observe(t.rest(), Seq(k.begin() + 1, k.end()), what);
    }
}
template <class A, class B>
void compare(Ctx& c, const Seq& ka, const Seq& kb)
{
    auto a = A::make(ka);
    auto b = B::make(kb);
    bool want = false;
    if constexpr (std::is_same_v<A, B>)
        want = A::eq(ka, kb);
    c.state(A::text(ka) + "|" + B::text(kb));
    LOG(c, A::text(ka) << " == " << B::text(kb) << " -> " << (a == b) << ", expected " << want);
    CHECK((a == b) == want && (b == a) == want, A::text(ka) << " == " << B::text(kb) << ": got " << (a == b) << " and " << (b == a) << ", expected " << want);
    CHECK((a != b) == !want && (b != a) == !want, A::text(ka) << " != " << B::text(kb) << ": got " << (a != b) << " and " << (b != a) << ", expected " << !want);
    const auto& ca = a;
    CHECK(ca == a && !(a != ca), A::text(ka) << " differs from itself");
    c.step(4);
    observe(a, ka, "left");
    observe(b, kb, "right");
}

// ---- all type lists of arity 0..3 over three types, all pairs --------------------------------------------
template <class X, class L>
struct Cons;
template <class X, class... T>
struct Cons<X, TL<T...>>
{
    typedef TL<X, T...> type;
};
template <class U, int code>
struct Nth // bijective numeration in base |U|
{
    static constexpr int B = std::tuple_size_v<U>;
    typedef std::tuple_element_t<(code - 1) % B, U> X;
    typedef typename Cons<X, typename Nth<U, (code - 1) / B>::type>::type type;
};
template <class U>
struct Nth<U, 0>
{
    typedef TL<> type;
};
template <>
std::string txt<double>(int k)
{
    return std::to_string(k);
}
template <>
std::string txt<unsigned char>(int k)
{
    return std::string(1, char(k));
}
Seq vals(Ctx& c, int n, int k)
{
    Seq s(n);
    for (auto& x : s)
        x = c.choose(k);
    return s;
}
template <class U, int A, int B>
void pair_of_lists(Ctx& c)
{
    typedef typename Nth<U, A>::type X;
    typedef typename Nth<U, B>::type Y;
    int k = X::n < 3 ? 3 : 2;
    Seq a = vals(c, X::n, k), b = vals(c, Y::n, k);
    compare<X, Y>(c, a, b);
}
typedef void (*Fn)(Ctx&);
template <class U, int N, int A, int... B>
void row(std::vector<Fn>& v, std::integer_sequence<int, B...>)
{
    (v.push_back(&pair_of_lists<U, A, B>), ...);
}
template <class U, int N, int... A>
std::vector<Fn> all(std::integer_sequence<int, A...> s)
{
    std::vector<Fn> v;
    (row<U, N, A>(v, s), ...);
    return v;
}

// ---- longer tuples: all values, compared with what differs in any subset of places -----------------------
template <class L>
void longer(Ctx& c)
{
    Seq a = vals(c, L::n, L::n <= 4 ? 3 : 2), b = a;
    int mask = c.choose(1 << L::n);
    for (int i = 0; i < L::n; ++i)
        if (mask >> i & 1)
            b[i] = (b[i] + 1) % 3;
    compare<L, L>(c, a, b);
}
template <class A, class B>
void cross(Ctx& c)
{
    Seq a = vals(c, A::n, 2), b = vals(c, B::n, 2);
    compare<A, B>(c, a, b);
}
// ---- copies ----------------------------------------------------------------------------------------------
template <class... T>
void copies(Ctx& c)
{
    typedef TL<T...> L;
    Seq k = vals(c, L::n, 2), j = vals(c, L::n, 2);
    long live = mc::A.live;
    long objs = mc::TS.live;
    {
        auto src = [&]<std::size_t... I>(std::index_sequence<I...>)
        {
            return std::make_tuple(val<T>(k[I])...);
        }(std::index_sequence_for<T...>());
        auto t = std::apply([](const auto&... x) { return pyincpp::make_tuple(x...); }, src);
        static_assert(std::is_same_v<decltype(t), Tuple<T...>>);
        Tuple<T...> d = std::apply([](const auto&... x) { return Tuple<T...>(x...); }, src);
        src = [&]<std::size_t... I>(std::index_sequence<I...>)
        {
            return std::make_tuple(val<T>(j[I])...);
        }(std::index_sequence_for<T...>());
        observe(t, k, "make_tuple, then the arguments changed");
        observe(d, k, "constructor, then the arguments changed");
        auto u = t;
        t = L::make(j);
        observe(u, k, "copy, then the source assigned to");
        observe(t, j, "assigned");
        CHECK((t == u) == L::eq(j, k), "copy compares wrong");
        auto v = std::move(u);
        observe(v, k, "moved to");
        u = t;
        observe(u, j, "moved from, then assigned");
        const auto& r = u;
        u = r;
        observe(u, j, "assigned to itself");
        std::swap(u, v);
        observe(u, k, "swapped");
        observe(v, j, "swapped");
        c.step(8);
        c.state(L::text(k) + L::text(j));
    }
    CHECK(mc::TS.live == objs, "elements alive after the tuples are gone: " << mc::TS.live - objs);
    CHECK_LEAK(mc::A.live == live, "blocks leaked: " << mc::A.live - live);
}
// ---- elements whose equality is unusual ------------------------------------------------------------------
struct Never
{
    bool operator==(const Never&) const { return false; }
};
struct Mod // equal when congruent modulo m
{
    int v;
    bool operator==(const Mod& o) const { return v % 10 == o.v % 10; }
};
} // namespace

MC_PART
{
#if PART == 0
    static const auto t2 = all<std::tuple<int, std::string>, 15>(std::make_integer_sequence<int, 15>());
    mc::scenario("pairs of type lists over 2 types up to arity 3", 25, [](Ctx& c)
                 { t2[c.choose(t2.size())](c); });
#elif PART == 1
    static const auto t3 = all<std::tuple<int, double, std::string>, 13>(std::make_integer_sequence<int, 13>());
    mc::scenario("pairs of type lists over 3 types up to arity 2", 13, [](Ctx& c)
                 { t3[c.choose(t3.size())](c); });
#elif PART == 2
    typedef std::string S;
    static const std::vector<Fn> same{
        &longer<TL<int, int, int, int>>, &longer<TL<S, int, S, int>>, &longer<TL<int, int, int, int, int>>, &longer<TL<char, S, double, int, S>>,
        &longer<TL<int, int, int, int, int, int>>, &longer<TL<S, S, S, S, S, S>>, &longer<TL<Tuple<int, S>, int>>, &longer<TL<int, Tuple<int>, Tuple<>>>,
        &longer<TL<Tuple<int, S>, Tuple<int, S>, Tuple<int>>>, &longer<TL<pyincpp::List<int>, S>>, &longer<TL<bool, char, bool>>, &longer<TL<Tracked, Tracked, int>>,
        &longer<TL<Tuple<>>>, &longer<TL<Tuple<>, Tuple<>>>, &longer<TL<pyincpp::List<int>, pyincpp::List<int>, Tuple<int>, int>>, &longer<TL<int, int, int, int, int, int, int, int>>};
    mc::scenario("longer and nested tuples", 16, [](Ctx& c)
                 { same[c.choose(same.size())](c); });
#elif PART == 3
    typedef std::string S;
    static const std::vector<Fn> crossed{
        &cross<TL<int, int, int, int>, TL<int, int, int>>, &cross<TL<int, int, int, int, int>, TL<int, int, int, int>>, &cross<TL<S, S, S, S>, TL<S, S, S, S, int>>,
        &cross<TL<int, int, int, int>, TL<int, int, int, long>>, &cross<TL<int, int, int, int>, TL<long, int, int, int>>, &cross<TL<int, int, int, int>, TL<int, int, unsigned, int>>,
        &cross<TL<bool, int>, TL<int, int>>, &cross<TL<char, char>, TL<char, int>>, &cross<TL<Tuple<int>>, TL<int>>, &cross<TL<Tuple<>>, TL<>>, &cross<TL<Tuple<int>, int>, TL<int, Tuple<int>>>,
        &cross<TL<Tuple<int, S>>, TL<int, S>>, &cross<TL<int>, TL<int, int, int, int>>, &cross<TL<>, TL<int, int, int, int, int>>, &cross<TL<short>, TL<int>>, &cross<TL<float>, TL<double>>,
        &cross<TL<Tuple<int>>, TL<Tuple<int, S>>>, &cross<TL<int, float, int>, TL<int, double, int>>, &cross<TL<long long, int>, TL<long, int>>, &cross<TL<unsigned char>, TL<char>>};
    mc::scenario("tuples of different types", 20, [](Ctx& c)
                 { crossed[c.choose(crossed.size())](c); });
    static const std::vector<Fn> cps{&copies<int>, &copies<S>, &copies<Tracked>, &copies<Tracked, S>, &copies<S, int, Tracked>, &copies<int, S, Tracked, S>, &copies<Tuple<int, S>, Tracked>,
                                     &copies<pyincpp::List<int>, Tuple<int, S>>, &copies<>};
    mc::scenario("copies", 9, [](Ctx& c)
                 { cps[c.choose(cps.size())](c); });
    mc::scenario("element equality decides", 1, [](Ctx& c)
                 {
        int where = c.choose(3), i = c.choose(30), j = c.choose(30);
        Mod a{i}, b{j};
        bool want = i % 10 == j % 10;
        if (where == 0)
        {
            Tuple<Mod, int> x(a, 1), y(b, 1);
            CHECK((x == y) == want && (x != y) == !want, "Mod " << i << " " << j);
        }
        else if (where == 1)
        {
            Tuple<int, Mod> x(1, a), y(1, b);
            CHECK((x == y) == want && (x != y) == !want, "Mod " << i << " " << j);
        }
        else
        {
            Tuple<int, Never> x(i, Never()), y(j, Never());
            CHECK(!(x == y) && x != y && !(x == x) && x != x, "an element never equal to itself");
            double nan = std::numeric_limits<double>::quiet_NaN();
            Tuple<double, int> p(nan, i);
            CHECK(!(p == p) && p != p, "NaN equals itself");
            Tuple<double> z(0.0), m(-0.0);
            CHECK(z == m && !(z != m), "zero and negative zero differ");
        }
        c.step(2);
        c.state(where * 900 + i * 30 + j); });
#endif
}
