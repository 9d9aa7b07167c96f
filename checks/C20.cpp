// C20: Set holds distinct elements under every operation history.
#include "confam.hpp"
#include "set.hpp"
using namespace fam;
using pyincpp::Set;
typedef std::set<int> M;

template <class E>
struct H
{
    typedef Set<E> S;
    static E mk(int k) { return El<E>::make(k); }
    static int key(const E& e) { return El<E>::key(e); }
    static S set(const M& m)
    {
        S s;
        for (int k : m)
            s.add(mk(k));
        return s;
    }
    static M subset(Ctx& c, int k)
    {
        int mask = c.choose(1 << k);
        M m;
        for (int i = 0; i < k; ++i)
            if (mask >> i & 1)
                m.insert(i);
        return m;
    }
    static void same(const S& s, const M& m, const char* what, int probe_to)
    {
        Seq w(m.begin(), m.end());
        CHECK(keys(s) == w, what << ": got " << show(keys(s)) << ", expected " << show(w));
        CHECK(s.size() == (int)m.size() && s.is_empty() == m.empty(), what << ": size " << s.size());
        Seq r;
        for (auto it = s.rbegin(); it != s.rend(); ++it)
            r.push_back(key(*it));
        CHECK(std::equal(r.rbegin(), r.rend(), w.begin(), w.end()), what << ": reverse iteration");
        for (int k = 0; k <= probe_to; ++k)
        {
            E e = mk(k);
            bool in = m.count(k);
            CHECK(s.contains(e) == in, what << ": contains(" << k << ")");
            auto it = s.find(e);
            CHECK((it != s.end()) == in && (!in || key(*it) == k), what << ": find(" << k << ")");
        }
        int lo = -9, hi = -9;
        std::string want = m.empty() ? "runtime_error" : "ok";
        CHECK(outcome_of([&] { lo = key(s.min()); }) == want && outcome_of([&] { hi = key(s.max()); }) == want, what << ": min/max outcome");
        if (!m.empty())
            CHECK(lo == *m.begin() && hi == *m.rbegin(), what << ": min " << lo << " max " << hi << " of " << show(w));
    }
    static void op(Ctx& c, S& s, M& m, int k, bool full)
    {
        M before = m;
        c.step();
        int which = c.choose(15);
        auto arg = [&]
        {
            return full ? subset(c, k) : std::vector<M>{{}, {1}, {0, 2}, {0, 1, 2}}[c.choose(4)];
        };
        std::string o = "ok", want = "ok";
        switch (which)
        {
            case 0: {
                int v = c.choose(k);
                LOG(c, "add(" << v << ")");
                E e = mk(v);
                bool r = s.add(e), w = m.insert(v).second;
                CHECK(r == w && key(e) == v, "add(" << v << ") returned " << r);
                break;
            }
            case 1: {
                int v = c.choose(k + (full ? 1 : 0));
                LOG(c, "remove(" << v << ")");
                bool r = s.remove(mk(v)), w = m.erase(v);
                CHECK(r == w, "remove(" << v << ") returned " << r);
                break;
            }
            case 2: {
                LOG(c, "pop()");
                int g = -9;
                o = outcome_of([&] { g = key(s.pop()); });
                if (m.empty())
                    want = "runtime_error";
                else
                    CHECK(m.erase(g) == 1, "pop returned " << g << ", not a member of " << show(Seq(before.begin(), before.end())));
                break;
            }
            case 3: { // own elements as arguments
                if (m.empty())
                    return;
                int j = c.choose(full ? m.size() : 1);
                auto it = s.begin();
                auto mi = m.begin();
                std::advance(it, j);
                std::advance(mi, j);
                LOG(c, "remove own element " << j);
                CHECK(!s.add(*it), "add own element reports a change");
                CHECK(s.remove(*it), "remove own element");
                m.erase(mi);
                break;
            }
            case 4: {
                M a = arg();
                LOG(c, "extend " << show(Seq(a.begin(), a.end())));
                auto v = elems<E>(Seq(a.rbegin(), a.rend()));
                s.extend(v.data(), v.data() + v.size());
                s.extend(v.begin(), v.end());
                m.insert(a.begin(), a.end());
                break;
            }
            case 5: {
                LOG(c, "clear()");
                s.clear();
                m.clear();
                break;
            }
            case 6: {
                LOG(c, "extend with itself");
                s.extend(s.begin(), s.end());
                break;
            }
            case 7: {
                LOG(c, "copy and copy back");
                S d(s), e;
                same(d, m, "copy", k);
                e = d;
                d.add(mk(k));
                s = e;
                same(e, m, "copy of the copy", k);
                S& self = s;
                s = self;
                break;
            }
            case 8: {
                LOG(c, "move away and back");
                S d(std::move(s));
                same(d, m, "moved", k);
                same(s, {}, "moved from", k);
                CHECK(s.add(mk(1)), "add to the moved-from set");
                same(s, {1}, "moved-from set used again", k);
                s = std::move(d);
                same(d, {}, "move-assigned from", k);
                std::swap(s, d);
                same(s, {}, "swapped", k);
                std::swap(s, d);
                break;
            }
            case 9:
            case 10:
            case 11:
            case 12: {
                M a = arg(), w;
                S x = set(a);
                S* r = nullptr;
                LOG(c, (which == 9 ? "&= " : which == 10 ? "|= " : which == 11 ? "-= " : "^= ") << show(Seq(a.begin(), a.end())));
                switch (which)
                {
                    case 9: r = &(s &= x); std::set_intersection(m.begin(), m.end(), a.begin(), a.end(), std::inserter(w, w.end())); break;
                    case 10: r = &(s |= x); std::set_union(m.begin(), m.end(), a.begin(), a.end(), std::inserter(w, w.end())); break;
                    case 11: r = &(s -= x); std::set_difference(m.begin(), m.end(), a.begin(), a.end(), std::inserter(w, w.end())); break;
                    case 12: r = &(s ^= x); std::set_symmetric_difference(m.begin(), m.end(), a.begin(), a.end(), std::inserter(w, w.end())); break;
                }
                CHECK(r == &s, "compound operators return the set");
                same(x, a, "operand", k);
                m = w;
                break;
            }
            case 13: {
                int w = c.choose(4);
                LOG(c, (w == 0 ? "&=" : w == 1 ? "|=" : w == 2 ? "-=" : "^=") << " itself");
                switch (w)
                {
                    case 0: s &= s; break;
                    case 1: s |= s; break;
                    case 2: s -= s; m.clear(); break;
                    case 3: s ^= s; m.clear(); break;
                }
                break;
            }
            case 14: {
                int v = c.choose(k);
                LOG(c, "add(" << v << ") twice, remove twice");
                bool had = m.count(v);
                CHECK(s.add(mk(v)) == !had && !s.add(mk(v)) && s.remove(mk(v)) && !s.remove(mk(v)), "add and remove twice");
                m.erase(v);
                break;
            }
        }
        CHECK(o == want, "outcome " << o << " expected " << want);
        same(s, m, "set after the operation", k);
        c.state(El<E>::name() + show(Seq(m.begin(), m.end())));
        c.outcome(std::to_string(which) + o);
    }
    static void reg(bool T)
    {
        std::string e = El<E>::name();
        mc::scenario(e + "/all-states", 32, [T](Ctx& c)
                     {
                         int k = T ? 6 : 5;
                         M m = subset(c, k);
                         LOG(c, show(Seq(m.begin(), m.end())));
                         S s = set(m);
                         op(c, s, m, k, true);
                         CHECK(s == set(m) && !(s != set(m)), "equality");
                     });
        mc::scenario(e + "/pairs", 64, [T](Ctx& c)
                     {
                         M m = subset(c, T ? 4 : 3);
                         LOG(c, show(Seq(m.begin(), m.end())));
                         S s = set(m);
                         op(c, s, m, 3, true);
                         op(c, s, m, 3, true);
                     });
        if (sizeof(E) == 1)
            return;
        mc::scenario(e + "/histories", 64, [T](Ctx& c)
                     {
                         S s;
                         M m;
                         for (int i = 0, d = (T ? 4 : 3) + (T && std::is_same_v<E, int>); i < d; ++i)
                             op(c, s, m, 3, false);
                         CHECK(s == set(m), "equality");
                     });
        // every insertion order, then every removal order prefix
        mc::scenario(e + "/orders", 42, [T](Ctx& c)
                     {
                         int n = T ? 6 : 5;
                         S s;
                         M m;
                         std::vector<int> rest;
                         for (int i = 0; i < n; ++i)
                             rest.push_back(i);
                         auto left = rest;
                         while (!left.empty())
                         {
                             int i = c.choose(left.size()), v = left[i];
                             left.erase(left.begin() + i);
                             LOG(c, "add " << v);
                             CHECK(s.add(mk(v)), "add reports false for a new element");
                             m.insert(v);
                             c.step();
                         }
                         same(s, m, "set", n);
                         left = rest;
                         while (left.size() > 1)
                         {
                             int i = c.choose(left.size()), v = left[i];
                             left.erase(left.begin() + i);
                             LOG(c, "remove " << v);
                             CHECK(s.remove(mk(v)), "remove");
                             m.erase(v);
                             c.step();
                         }
                         same(s, m, "set", n);
                     });
        mc::scenario(e + "/sizes", 32, [T](Ctx& c)
                     {
                         static const std::vector<int> ns{6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000};
                         int n = c.of(ns), kind = c.choose(5), mod = std::vector<int>{n, n / 2 + 1, 3}[c.choose(3)];
                         LOG(c, "n " << n << " kind " << kind << " mod " << mod);
                         Seq q = structured(n, kind);
                         S s;
                         M m;
                         for (int x : q)
                         {
                             int v = (x % mod + mod) % mod;
                             CHECK(s.add(mk(v)) == m.insert(v).second, "add " << v);
                             c.step();
                         }
                         same(s, m, "large set", n + 1 > 70 ? 70 : n + 1);
                         auto v = elems<E>(q);
                         s.extend(v.begin(), v.end());
                         m.insert(q.begin(), q.end());
                         same(s, m, "large set extended", 70);
                         for (int i = 0, st = 1 + c.choose(3); i < n; i += st)
                             CHECK(s.remove(mk(i)) == (m.erase(i) == 1), "remove " << i);
                         same(s, m, "large set reduced", 70);
                         while (!m.empty())
                         {
                             int g = key(s.pop());
                             CHECK(m.erase(g) == 1, "pop returned a non-member " << g);
                         }
                         CHECK(s.is_empty(), "empty after popping everything");
                         c.beat();
                     });
    }
};

void register_scenarios()
{
    bool T = mc::G.tier;
    H<int>::reg(T);
    H<std::string>::reg(T);
    H<Tracked>::reg(T);
    H<Padded>::reg(T);
    H<double>::reg(T);
    H<signed char>::reg(T);
    H<Large>::reg(T);
    H<Bulky>::reg(T);
    mc::scenario("beyond 16 bits", 8, [T](Ctx& c)
                 {
                     int n = c.of(T ? std::vector<int>{32767, 32768, 65535, 65536, 65537, 131073} : std::vector<int>{32768, 65537}), kind = c.choose(4), st = 1 + c.choose(3);
                     Seq q = structured(n, kind);
                     if (kind == 2)
                         for (int i = 0; i < n; ++i)
                             q[i] = (i * 7919l) % n;
                     LOG(c, n << " elements of kind " << kind << " step " << st);
                     Set<int> s;
                     std::set<int> m;
                     for (int v : q)
                         CHECK(s.add(v) == m.insert(v).second, "add " << v);
                     H<int>::same(s, m, "large set", n + 1);
                     Set<int> e;
                     e.extend(q.begin(), q.end());
                     CHECK(e == s && Set<int>(q.begin(), q.end()) == s, "built at once");
                     for (int i = 0; i < n; i += st)
                         CHECK(s.remove(i) == (m.erase(i) == 1), "remove " << i);
                     H<int>::same(s, m, "large set reduced", n + 1);
                     while (!m.empty())
                         CHECK(m.erase(s.pop()) == 1 && s.size() == (int)m.size(), "pop at " << m.size());
                     CHECK(s.is_empty(), "empty after popping everything");
                     c.step(4 * n);
                     c.state(n * 100l + kind * 10 + st);
                 });
}
