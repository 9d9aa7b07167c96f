// C17: List queries and slices agree with a plain sequence.
#include "confam.hpp"
#include "list.hpp"
using namespace fam;
using pyincpp::List;

static const std::vector<int> STEPS{1, 2, 3, 4, 5, 7, 100, INT_MAX - 1, INT_MAX, -1, -2, -3, -4, -5, -7, -100, -INT_MAX, INT_MIN, 0};

template <class E>
struct Q
{
    typedef List<E> L;
    static E mk(int k) { return El<E>::make(k); }
    static L list(const Seq& m)
    {
        auto v = elems<E>(m);
        return L(v.data(), v.data() + v.size());
    }
    static void slice(Ctx& c, const L& l, const Seq& m, int a, int b, int s)
    {
        long n = m.size();
        LOG(c, show(m) << ".slice(" << a << "," << b << "," << s << ")");
        L r;
        std::string o = outcome_of([&] { r = l.slice(a, b, s); });
        bool bad = s == 0 || a < -n || a >= n || b < -n - 1 || b > n;
        CHECK(o == (bad ? "runtime_error" : "ok"), show(m) << ".slice(" << a << "," << b << "," << s << ") outcome " << o);
        if (!bad)
        {
            Seq w;
            long x = a < 0 ? a + n : a, y = b < 0 ? b + n : b;
            for (long i = x; s > 0 ? i < y : i > y; i += s)
                w.push_back(m[i]);
            same_seq(r, w, "slice", false);
            c.state(show(w));
            if (s == 1)
            {
                L d = l.slice(a, b);
                same_seq(d, w, "slice with the default step", false);
            }
        }
        c.step();
        c.outcome(o);
    }
    // Python's rule: negative bounds count from the end, then both are clamped to the list
    static void index(Ctx& c, const L& l, const Seq& m, int v, int a, int b, bool two)
    {
        long n = m.size(), x = two ? a : 0, y = two ? b : n;
        x = std::clamp(x < 0 ? x + n : x, 0l, n);
        y = std::clamp(y < 0 ? y + n : y, 0l, n);
        int w = -1;
        for (long i = x; i < y && w < 0; ++i)
            if (m[i] == v)
                w = i;
        LOG(c, show(m) << ".index(" << v << "," << a << "," << b << ")");
        int g = -9;
        bool k = !w;
        std::string o = outcome_of([&]
                                   {
            E e = mk(v);
            g = two ? l.index(e, a, b) : l.index(e);
            k = two ? l.contains(e, a, b) : l.contains(e); });
        CHECK(o == "ok" && g == w, show(m) << ".index(" << v << "," << a << "," << b << ") is " << g << ", expected " << w << " " << o);
        CHECK(k == (w >= 0), "contains");
        if (two && b == INT_MAX)
            CHECK(l.index(mk(v), a) == w && l.contains(mk(v), a) == (w >= 0), "index from " << a);
        c.step();
    }
    static void others(Ctx& c, L& l, const Seq& m, int k)
    {
        int n = m.size();
        const L& cl = l;
        for (int v = 0; v <= k; ++v)
        {
            E e = mk(v);
            CHECK(cl.count(e) == std::count(m.begin(), m.end(), v), show(m) << ".count(" << v << ")");
            auto it = cl.find(e);
            CHECK(it - cl.begin() == std::find(m.begin(), m.end(), v) - m.begin(), show(m) << ".find(" << v << ")");
            CHECK((it == cl.end()) == (std::count(m.begin(), m.end(), v) == 0), "find end");
            index(c, cl, m, v, 0, 0, false);
            Seq a = m, b = m, d = m;
            a.push_back(v);
            same_seq(cl + e, a, "list + element", false);
            auto i = std::find(b.begin(), b.end(), v);
            if (i != b.end())
                b.erase(i);
            same_seq(cl - e, b, "list - element", false);
            d.erase(std::remove(d.begin(), d.end(), v), d.end());
            same_seq(cl / e, d, "list / element", false);
            same_seq(cl, m, "operand of + - /", false);
            c.step(5);
        }
        for (int j = 0; j < n; ++j)
        {
            // own elements as arguments
            Seq a = m, b = m, d = m;
            a.push_back(m[j]);
            same_seq(cl + cl[j], a, "list + own element", false);
            b.erase(std::find(b.begin(), b.end(), int(m[j])));
            same_seq(cl - cl[j], b, "list - own element", false);
            int v = m[j];
            d.erase(std::remove(d.begin(), d.end(), v), d.end());
            same_seq(cl / cl[j], d, "list / own element", false);
            CHECK(cl.index(cl[j]) == std::find(m.begin(), m.end(), v) - m.begin(), "index of own element");
        }
        for (int t : {0, 1, 2, 3, 8})
        {
            Seq a;
            for (int i = 0; i < t; ++i)
                a.insert(a.end(), m.begin(), m.end());
            same_seq(cl * t, a, "list * times", false);
        }
        for (int t : {-1, -2, INT_MIN, -INT_MAX})
            CHECK(outcome_of([&] { L x = cl * t; }) == "runtime_error", show(m) << " * " << t);
        // too many elements: n * t >= INT_MAX
        if (n > 0)
            for (int t : {INT_MAX, INT_MAX / 2 + 1, INT_MAX / 3 + 1, INT_MAX / 4 + 1, 1 << 30, 1 << 29, 3 << 29, 1 << 28})
                if ((long)n * t >= INT_MAX)
                    CHECK(outcome_of([&] { L x = cl * t; }) == "runtime_error", show(m) << " * " << t);
        if (n == 0)
            same_seq(cl * 100000, {}, "empty list * times", false);
        Seq a = m;
        a.insert(a.end(), m.begin(), m.end());
        same_seq(cl + cl, a, "list + itself", false);
        same_seq(cl, m, "operand", true);
        // all indexes, all extremes
        for (int i = -n - 3; i <= n + 3; ++i)
        {
            int g = -9, g2 = -9;
            std::string o = outcome_of([&] { g = El<E>::key(cl[i]); }), o2 = outcome_of([&] { g2 = El<E>::key(l[i]); });
            bool ok = i >= -n && i < n;
            CHECK(o == (ok ? "ok" : "runtime_error") && o2 == o, show(m) << "[" << i << "] outcome " << o);
            if (ok)
                CHECK(g == m[i < 0 ? i + n : i] && g2 == g && &cl[i] == &l[i], show(m) << "[" << i << "] is " << g);
        }
        for (int i : {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, -1000000000})
            CHECK(outcome_of([&] { (void)cl[i]; }) == "runtime_error", show(m) << "[" << i << "]");
        same_seq(cl, m, "list");
    }
    static void reg(bool T)
    {
        std::string e = El<E>::name();
        mc::scenario(e + "/slice", 32, [T](Ctx& c)
                     {
                         int n = c.choose(T ? 9 : 7);
                         Seq m;
                         for (int i = 0; i < n; ++i)
                             m.push_back(i);
                         L l = list(m);
                         int a = position(c, n), b = position(c, n);
                         slice(c, l, m, a, b, c.of(STEPS));
                         same_seq(l, m, "sliced list", false);
                     });
        mc::scenario(e + "/index", 32, [T](Ctx& c)
                     {
                         Seq m = seq(c, 2, T ? 6 : 4);
                         L l = list(m);
                         int n = m.size(), a = position(c, n), b = position(c, n);
                         for (int v = 0; v <= 2; ++v)
                             index(c, l, m, v, a, b, true);
                         same_seq(l, m, "searched list", false);
                     });
        mc::scenario(e + "/rest", 16, [T](Ctx& c)
                     {
                         Seq m = seq(c, 3, T ? 6 : 5);
                         LOG(c, show(m));
                         L l = list(m);
                         others(c, l, m, 3);
                         c.state(show(m));
                     });
        mc::scenario(e + "/list+list", 16, [T](Ctx& c)
                     {
                         Seq m = seq(c, 2, T ? 5 : 4), x = seq(c, 2, T ? 5 : 4);
                         L l = list(m), r = list(x);
                         LOG(c, show(m) << " + " << show(x));
                         Seq w = m;
                         w.insert(w.end(), x.begin(), x.end());
                         same_seq(l + r, w, "list + list");
                         same_seq(l, m, "left operand");
                         same_seq(r, x, "right operand");
                         c.step();
                         c.state(show(w));
                     });
        if (!std::is_same_v<E, int> && std::is_trivially_copyable_v<E>)
        {
            // what must not be compared, or told apart, by bytes
            mc::scenario(e + "/long", 32, [T](Ctx& c)
                         {
                             static const std::vector<int> ns{5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100};
                             int n = c.of(ns);
                             Seq m = structured(n, c.choose(4));
                             L l = list(m);
                             int pos[] = {0, 1, n / 2, n - 1, n, -1, -n, INT_MAX, INT_MIN};
                             int a = c.of(pos), b = c.of(pos);
                             for (int s : {1, 2, -1, -n})
                                 slice(c, l, m, a, b, s);
                             for (int v : {m[0], m[n / 2], m[n - 1], 1, 120})
                                 index(c, l, m, v, a, b, true);
                             others(c, l, m, 3);
                         });
            return;
        }
        mc::scenario(e + "/long", 32, [T](Ctx& c)
                     {
                         static const std::vector<int> ns{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 5000};
                         int n = ns[c.choose(T ? 20 : 16)];
                         Seq m = structured(n, c.choose(4));
                         L l = list(m);
                         int pos[] = {0, 1, n / 2, n - 2, n - 1, n, n + 1, -1, -2, -n, -n + 1, -n - 1, -n - 2, -n / 2, INT_MAX, INT_MIN};
                         int a = c.of(pos), b = c.of(pos);
                         for (int s : {1, 2, 63, 64, 65, n - 1, n, -1, -2, -64, -n, INT_MAX, INT_MIN})
                             slice(c, l, m, a, b, s);
                         for (int v : {m[0], m[n / 2], m[n - 1], 99999})
                             index(c, l, m, v, a, b, true);
                     });
        mc::scenario(e + "/long-rest", 8, [T](Ctx& c)
                     {
                         static const std::vector<int> ns{64, 127, 129, 256, 1000};
                         Seq m = structured(c.of(ns), c.choose(4));
                         L l = list(m);
                         for (int v : {m[0], m[m.size() - 1], 77777})
                         {
                             CHECK(l.count(mk(v)) == std::count(m.begin(), m.end(), v), "count");
                             Seq d = m;
                             d.erase(std::remove(d.begin(), d.end(), v), d.end());
                             same_seq(l / mk(v), d, "long / element");
                             Seq a;
                             for (int i = 0; i < 3; ++i)
                                 a.insert(a.end(), m.begin(), m.end());
                             same_seq(l * 3, a, "long * 3");
                         }
                         c.step();
                     });
        // counters and indexes of every width
        mc::scenario(e + "/very many", 16, [T](Ctx& c)
                     {
                         static const std::vector<int> ns{260, 520, 1030, 2050, 4100, 33000, 66000, 132000, 263000};
                         int n = ns[c.choose(std::is_same_v<E, int> ? 9 : T ? 7 : 5)], kind = c.choose(4);
                         // all equal; all but the first; all but the last; one in the middle
                         Seq m(n, kind == 3 ? 1 : 5);
                         if (kind == 1)
                             m[0] = 1;
                         if (kind == 2)
                             m[n - 1] = 1;
                         if (kind == 3)
                             m[n / 2] = 5;
                         const L l = list(m);
                         LOG(c, n << " elements, kind " << kind);
                         for (int v : {5, 1, 9})
                         {
                             c.beat();
                             E x = mk(v);
                             CHECK(l.count(x) == std::count(m.begin(), m.end(), v), "count of " << v << " is " << l.count(x));
                             int at = std::find(m.begin(), m.end(), v) - m.begin();
                             CHECK(l.find(x) - l.begin() == at, "find " << v);
                             CHECK(l.index(x) == (at == n ? -1 : at), "index of " << v << " is " << l.index(x));
                             CHECK(l.contains(x) == (at < n), "contains " << v);
                             Seq d = m;
                             d.erase(std::remove(d.begin(), d.end(), v), d.end());
                             same_seq(l / x, d, "/", false);
                             d = m;
                             if (at < n)
                                 d.erase(d.begin() + at);
                             same_seq(l - x, d, "-", false);
                             c.step(6);
                         }
                         for (int s : {1, 2, -1, 255, 256, 257, -256, n - 1, 1 - n})
                             slice(c, l, m, s > 0 ? 0 : n - 1, s > 0 ? n : -n - 1, s);
                         c.state(n * 4l + kind);
                     });
    }
};

void register_scenarios()
{
    bool T = mc::G.tier;
    Q<int>::reg(T);
    Q<std::string>::reg(T);
    Q<Tracked>::reg(T);
    Q<Padded>::reg(T);
    Q<double>::reg(T);
    Q<signed char>::reg(T);
    Q<Large>::reg(T);
    Q<Bulky>::reg(T);
    // an element equals another one when == says so, itself included
    mc::scenario("NaN", 8, [T](Ctx& c)
                 {
                     Seq m = seq(c, 3, T ? 6 : 5); // 2 is NaN
                     auto make = [](int k) { return k == 2 ? std::numeric_limits<double>::quiet_NaN() : k * 1.5; };
                     List<double> l;
                     for (int k : m)
                         l += make(k);
                     LOG(c, show(m));
                     auto key = [](double e) { return e != e ? 2 : e > 0 ? 1 : 0; };
                     auto is = [&](const List<double>& r, const Seq& w, const char* what)
                     {
                         Seq g;
                         for (double e : r)
                             g.push_back(key(e));
                         CHECK(g == w, what << ": got " << show(g) << ", expected " << show(w));
                     };
                     int n = m.size();
                     bool nan = std::count(m.begin(), m.end(), 2);
                     for (int k = 0; k < 3; ++k)
                     {
                         const List<double> cl = l;
                         double e = make(k);
                         int first = k == 2 ? n : std::find(m.begin(), m.end(), k) - m.begin();
                         CHECK(cl.find(e) - cl.begin() == first && cl.index(e) == (first == n ? -1 : first) && cl.contains(e) == (first < n), "searching for " << e);
                         CHECK(cl.count(e) == (k == 2 ? 0 : std::count(m.begin(), m.end(), k)), "count of " << e);
                         Seq w = m;
                         if (first < n)
                             w.erase(w.begin() + first);
                         is(cl - e, w, "one removed");
                         w = m;
                         if (k != 2)
                             w.erase(std::remove(w.begin(), w.end(), k), w.end());
                         is(cl / e, w, "all removed");
                     }
                     Seq u;
                     for (int k : m)
                         if (k == 2 || std::find(u.begin(), u.end(), k) == u.end())
                             u.push_back(k);
                     is(List<double>(l).uniquify(), u, "uniquify");
                     List<double> same = l;
                     CHECK((same == l) == !nan && (same != l) == nan, "equality with a copy");
                     c.step(8);
                     c.state(show(m));
                 });
}
