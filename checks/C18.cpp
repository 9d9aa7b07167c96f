// C18: List sort is stable; uniquify, filter and map keep order.
#include "confam.hpp"
#include "list.hpp"
using namespace fam;
using pyincpp::List;

struct Rec // equality and order by key only, id tells equal elements apart
{
    int key = 0, id = 0;
    bool operator==(const Rec& o) const { return key == o.key; }
    bool operator<(const Rec& o) const { return key < o.key; }
    int get() const { return key; }
};
static const char* nm(const Rec&) { return "record"; }
static const char* nm(const Tracked&) { return "tracked"; }

template <class E>
struct S
{
    static bool greater(const E& a, const E& b) { return a.get() > b.get(); }
    static bool never(const E&, const E&) { return false; }
    static bool mod3(const E& a, const E& b) { return (a.get() % 3 + 3) % 3 < (b.get() % 3 + 3) % 3; }
    static bool less(const E& a, const E& b) { return a.get() < b.get(); }
    static int cls(int order, int k) // an ascending integer for each equivalence class of the order
    {
        return order == 2 ? -k : order == 3 ? 0 : order == 4 ? (k % 3 + 3) % 3 : k;
    }
    static List<E> list(const Seq& m)
    {
        std::vector<E> v;
        v.reserve(m.size());
        for (std::size_t i = 0; i < m.size(); ++i)
            v.push_back(E{m[i], int(i)});
        return v;
    }
    typedef std::vector<std::pair<int, int>> KI;
    static KI content(const List<E>& l)
    {
        KI r;
        r.reserve(l.size());
        for (auto& e : l)
            r.push_back({e.key, e.id});
        return r;
    }
    static std::string sh(const KI& v)
    {
        std::string s;
        for (std::size_t i = 0; i < v.size() && i < 40; ++i)
            s += std::to_string(v[i].first) + "#" + std::to_string(v[i].second) + " ";
        return s;
    }
    static void sort(Ctx& c, const Seq& m, int order)
    {
        List<E> l = list(m);
        LOG(c, "sort " << show(m) << " order " << order);
        List<E>* r = nullptr;
        switch (order)
        {
            case 0: r = &l.sort(); break;
            case 1: r = &l.sort(less); break;
            case 2: r = &l.sort(greater); break;
            case 3: r = &l.sort(never); break;
            case 4: r = &l.sort(mod3); break;
        }
        // reference: insertion by counting - position of i = number of elements that must come before it
        KI w;
        std::map<int, std::vector<int>> by;
        for (std::size_t i = 0; i < m.size(); ++i)
            by[cls(order, m[i])].push_back(i);
        for (auto& [k, is] : by)
            for (int i : is)
                w.push_back({m[i], i});
        KI g = content(l);
        CHECK(g == w, "sort of " << show(m) << " order " << order << " got " << sh(g) << ", expected " << sh(w));
        CHECK(r == &l, "sort returns the list");
        c.step();
    }
    static void uniquify(Ctx& c, const Seq& m)
    {
        List<E> l = list(m);
        LOG(c, "uniquify " << show(m));
        List<E>* r = &l.uniquify();
        KI w;
        for (std::size_t i = 0; i < m.size(); ++i)
            if (std::find(m.begin(), m.begin() + i, m[i]) == m.begin() + i)
                w.push_back({m[i], int(i)});
        KI g = content(l);
        CHECK(g == w && r == &l, "uniquify of " << show(m) << " got " << sh(g) << ", expected " << sh(w));
        c.step();
    }
    template <class P>
    static void filter(Ctx& c, const Seq& m, P keep)
    {
        List<E> l = list(m);
        KI w;
        for (std::size_t i = 0; i < m.size(); ++i)
            if (keep(m[i], int(i)))
                w.push_back({m[i], int(i)});
        int calls = 0;
        List<E>* r = &l.filter([&](const E& e)
                               { ++calls; return keep(e.key, e.id); });
        KI g = content(l);
        CHECK(g == w && r == &l, "filter of " << show(m) << " got " << sh(g) << ", expected " << sh(w));
        CHECK(calls == (int)m.size(), "the predicate was called " << calls << " times for " << m.size() << " elements");
        c.step();
    }
    static void map(Ctx& c, const Seq& m)
    {
        List<E> l = list(m);
        KI seen, w, w2;
        for (std::size_t i = 0; i < m.size(); ++i)
            w.push_back({m[i], int(i)}), w2.push_back({m[i] * 10 + 1, int(i)});
        List<E>* r = &l.map([&](E& e)
                            { seen.push_back({e.key, e.id}); e.key = e.key * 10 + 1; });
        CHECK(seen == w && r == &l, "map visited " << sh(seen) << ", expected " << sh(w));
        CHECK(content(l) == w2, "map left " << sh(content(l)));
        c.step();
    }
    static void all(Ctx& c, const Seq& m)
    {
        for (int o = 0; o < 5; ++o)
            sort(c, m, o);
        uniquify(c, m);
        map(c, m);
        filter(c, m, [](int k, int) { return k % 2 == 0; });
        c.state(show(m));
    }
    static void reg(bool T, bool fast)
    {
        std::string e = nm(E{});
        mc::scenario(e + "/3 keys", 27, [T, fast](Ctx& c)
                     {
                         int n = c.choose((fast ? 10 : 9) + (T ? 2 : 0));
                         Seq m(n);
                         for (int& x : m)
                             x = c.choose(3);
                         all(c, m);
                     });
        // binary patterns past the threshold (16) up to which library sorts insert one by one, hence are stable by accident
        for (int n : {16, 17, 18})
        {
            if (!fast && n == 18)
                continue;
            mc::scenario(e + "/2 keys, length " + std::to_string(n), 64, [n, fast, T](Ctx& c)
                         {
                             Seq m(n);
                             for (int i = 0; i < n; i += 6)
                             {
                                 int k = c.choose(1 << std::min(6, n - i));
                                 for (int j = i; j < n && j < i + 6; ++j)
                                     m[j] = k >> (j - i) & 1;
                             }
                             sort(c, m, 0);
                             if (T)
                                 sort(c, m, 2);
                         });
        }
        mc::scenario(e + "/permutations", 8, [T, fast](Ctx& c)
                     {
                         int n = c.choose(T && fast ? 10 : 9);
                         Seq m, rest(n);
                         for (int i = 0; i < n; ++i)
                             rest[i] = i;
                         while (!rest.empty())
                         {
                             int i = c.choose(rest.size());
                             m.push_back(rest[i]);
                             rest.erase(rest.begin() + i);
                         }
                         sort(c, m, 0);
                         sort(c, m, 2);
                         sort(c, m, 4);
                     });
        mc::scenario(e + "/filter", 16, [T](Ctx& c)
                     {
                         int n = c.choose(T ? 13 : 11);
                         Seq m(n);
                         for (int i = 0; i < n; ++i)
                             m[i] = i % 3;
                         int mask = c.choose(1 << n);
                         LOG(c, "filter mask " << mask << " of " << n);
                         filter(c, m, [&](int, int id) { return mask >> id & 1; });
                     });
        if (fast)
            mc::scenario(e + "/every kept count", 32, [T](Ctx& c)
                         {
                             int n = T ? 2600 : 1300, k = c.choose(n + 1), how = c.choose(3);
                             Seq m(n);
                             for (int i = 0; i < n; ++i)
                                 m[i] = i % (k + !k);
                             LOG(c, "keep " << k << " of " << n << ", way " << how);
                             if (how == 0)
                                 filter(c, m, [k](int, int id) { return id < k; });
                             else if (how == 1)
                                 filter(c, m, [k, n](int, int id) { return long(id + 1) * k / n != long(id) * k / n; });
                             else
                             {
                                 List<E> l = list(m);
                                 l.uniquify();
                                 KI w;
                                 for (int i = 0; i < (k ? k : 1); ++i)
                                     w.push_back({i, i});
                                 KI g = content(l);
                                 CHECK(g == w, "uniquify of " << n << " elements with " << k << " distinct values got " << sh(g));
                                 c.step();
                             }
                             c.state(k * 3 + how);
                             c.beat();
                         });
        mc::scenario(e + "/very long", 32, [T, fast](Ctx& c)
                     {
                         int n = c.of(T ? std::vector<int>{32767, 32768, 65535, 65536, 65537, 131073, 1048577} : std::vector<int>{32769, 65537, MC_SAN ? 131073 : 1048577}), kind = c.choose(5);
                         if (!fast && kind > 2)
                             return;
                         Seq m(n);
                         for (int i = 0; i < n; ++i)
                             m[i] = kind == 0 ? i : kind == 1 ? -i : kind == 2 ? i * 7919ll % n / 3 : kind == 3 ? i % 5 : (i * 31l + i / 7 * 17) % 1009;
                         sort(c, m, 0);
                         sort(c, m, 2);
                         sort(c, m, 4);
                         map(c, m);
                         filter(c, m, [](int, int id) { return id % 3 != 1; });
                         if (kind == 3)
                             uniquify(c, m);
                         c.beat();
                     });
        mc::scenario(e + "/long", 32, [T, fast](Ctx& c)
                     {
                         static const std::vector<int> ns{19, 20, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4097};
                         int n = c.of(ns);
                         int kind = c.choose(12);
                         int k = std::vector<int>{1, 2, 3, 7, 16, 100, n}[c.choose(7)];
                         Seq m(n);
                         unsigned x = 12345 + n;
                         for (int i = 0; i < n; ++i)
                         {
                             x = x * 1664525 + 1013904223;
                             int v = 0;
                             switch (kind)
                             {
                                 case 0: v = i; break;                          // ascending
                                 case 1: v = n - i; break;                      // descending
                                 case 2: v = i < n / 2 ? i : n - i; break;      // organ pipe
                                 case 3: v = i * 7919 % n; break;               // scattered
                                 case 4: v = x >> 16; break;
                                 case 5: v = i / 8; break;                      // runs
                                 case 6: v = (n - i) / 8; break;
                                 case 7: v = i == n - 1 ? -1 : i; break;        // smallest last
                                 case 8: v = i == 0 ? n : i; break;             // largest first
                                 case 9: v = i % 2 ? i : n - i; break;          // zigzag
                                 case 10: v = i & ~15; break;
                                 case 11: v = -(i ^ (i >> 1)); break;           // gray code, negative
                             }
                             m[i] = kind == 0 || kind == 1 || kind == 2 ? v / ((n + k - 1) / k) : v % k;
                         }
                         for (int o = 0; o < 5; ++o)
                             sort(c, m, o);
                         map(c, m);
                         filter(c, m, [](int, int id) { return id % 3 != 1; });
                         filter(c, m, [n](int, int id) { return id >= n / 2; });
                         if (n <= 600 || k <= 16)
                             uniquify(c, m);
                         c.beat();
                     });
    }
};

// Elements of plain types: equal ones may differ in value, too, when the order looks at a part of it.
template <class E>
void plain(bool T)
{
    mc::scenario(El<E>::name() + std::string("/plain"), 16, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 18, 19, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025, 2000};
                     int n = c.of(ns), kind = c.choose(8), order = c.choose(7);
                     const int top = sizeof(E) == 1 ? 130 : 4000;
                     Seq m(n);
                     unsigned x = 777 + n;
                     for (int i = 0; i < n; ++i)
                     {
                         x = x * 1664525 + 1013904223;
                         int v[] = {i, n - i, i * 7919, int(x >> 18), i / 3, i % 5, i % 2 ? i : n - i, int(x >> 18) % 4};
                         m[i] = v[kind] % top;
                     }
                     LOG(c, n << " elements of kind " << kind << " order " << order);
                     std::vector<E> w = elems<E>(m);
                     List<E> l(w.begin(), w.end());
                     auto k = [](const E& e) { return El<E>::key(e); };
                     auto by = [&](bool (*less)(const E&, const E&))
                     {
                         // merging what is merged: stable by construction
                         std::vector<E> r;
                         for (const E& e : w)
                             r.insert(std::upper_bound(r.begin(), r.end(), e, less), e);
                         w = r;
                         CHECK(&l.sort(less) == &l, "sort returns the list");
                     };
                     switch (order)
                     {
                         case 0: by([](const E& a, const E& b) { return El<E>::key(a) / 8 < El<E>::key(b) / 8; }); break;
                         case 1: by([](const E& a, const E& b) { return El<E>::key(a) % 16 > El<E>::key(b) % 16; }); break;
                         case 2: by([](const E&, const E&) { return false; }); break;
                         case 3: by([](const E& a, const E& b) { return a < b; }); break;
                         case 4: by([](const E& a, const E& b) { return a > b; }); break;
                         case 5: std::stable_sort(w.begin(), w.end()); l.sort(); break;
                         case 6: {
                             std::vector<E> u, f;
                             for (const E& e : w)
                                 if (std::find(u.begin(), u.end(), e) == u.end())
                                     u.push_back(e);
                             List<E> g = l;
                             CHECK(&g.filter([k](const E& e) { return k(e) % 3 != 1; }) == &g, "filter returns the list");
                             for (const E& e : w)
                                 if (k(e) % 3 != 1)
                                     f.push_back(e);
                             CHECK(keys(g) == keys(f), "filter gives " << show(keys(g)) << ", expected " << show(keys(f)));
                             Seq seen;
                             g = l;
                             CHECK(&g.map([&](E& e) { seen.push_back(k(e)); e = El<E>::make(k(e) / 2); }) == &g && seen == m, "map");
                             for (int i = 0; i < n; ++i)
                                 CHECK(k(g[i]) == m[i] / 2, "map left " << show(keys(g)));
                             CHECK(&l.uniquify() == &l, "uniquify returns the list");
                             w = u;
                             break;
                         }
                     }
                     auto same = [](const E& a, const E& b)
                     {
                         if constexpr (std::is_floating_point_v<E>)
                             return a == b && std::signbit(a) == std::signbit(b);
                         else if constexpr (std::is_same_v<E, Padded>)
                             return a.v == b.v && a.junk == b.junk;
                         else if constexpr (std::is_same_v<E, Large>)
                             return a.v == b.v && a.junk[0] == b.junk[0] && a.junk[299] == b.junk[299];
                         else
                             return a == b;
                     };
                     CHECK(std::equal(l.begin(), l.end(), w.begin(), w.end(), same), "got " << show(keys(l)) << ", expected " << show(keys(w)));
                     c.step();
                     c.state(n * 100l + kind * 10 + order);
                 });
}

void register_scenarios()
{
    bool T = mc::G.tier;
    plain<int>(T);
    plain<double>(T);
    plain<signed char>(T);
    plain<Padded>(T);
    plain<Large>(T);
    plain<Bulky>(T);
    S<Rec>::reg(T, !MC_SAN);
    if (MC_SAN)
        S<Tracked>::reg(T, false);
}
