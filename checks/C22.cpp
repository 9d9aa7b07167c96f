// C22: Dict behaves as a finite map under every operation history.
#include "confam.hpp"
#include "dict.hpp"
using namespace fam;
using pyincpp::Dict;
using pyincpp::Pair;
typedef std::map<int, int> M;

template <class K, class V>
struct H
{
    typedef Dict<K, V> D;
    static K mk(int k) { return El<K>::make(k); }
    static V mv(int v) { return El<V>::make(v); }
    static int kk(const K& k) { return El<K>::key(k); }
    static int vk(const V& v) { return El<V>::key(v); }
    static std::string name() { return std::string(El<K>::name()) + "->" + El<V>::name(); }
    static std::string sh(const M& m)
    {
        std::string s = "{";
        for (auto& [k, v] : m)
            s += std::to_string(k) + ":" + std::to_string(v) + " ";
        return s + "}";
    }
    static D dict(const M& m)
    {
        D d;
        for (auto& [k, v] : m)
            d.add(mk(k), mv(v));
        return d;
    }
    static M small(Ctx& c, int nk, int nv)
    {
        M m;
        for (int k = 0; k < nk; ++k)
            if (int v = c.choose(nv + 1))
                m[k] = v - 1;
        return m;
    }
    static void same(D& d, const M& m, const char* what, int probe, bool deep = true)
    {
        const D& cd = d;
        M g;
        int last = -1000000;
        for (auto& p : cd)
        {
            int k = kk(p.first);
            CHECK(k > last, what << ": iteration is not ascending");
            last = k;
            g[k] = vk(p.second);
        }
        CHECK(g == m, what << ": got " << sh(g) << ", expected " << sh(m));
        CHECK(cd.size() == (int)m.size() && cd.is_empty() == m.empty(), what << ": size " << cd.size());
        std::string want = m.empty() ? "runtime_error" : "ok";
        int lo = -9, hi = -9;
        CHECK(outcome_of([&] { lo = kk(cd.min()); }) == want && outcome_of([&] { hi = kk(cd.max()); }) == want, what << ": min/max outcome");
        if (!m.empty())
            CHECK(lo == m.begin()->first && hi == m.rbegin()->first, what << ": min " << lo << " max " << hi);
        for (int k = 0; k <= probe; ++k)
        {
            K e = mk(k);
            auto it = m.find(k);
            bool in = it != m.end();
            CHECK(cd.contains(e) == in, what << ": contains(" << k << ")");
            auto f = cd.find(e);
            CHECK((f != cd.end()) == in && (!in || (kk(f->first) == k && vk(f->second) == it->second)), what << ": find(" << k << ")");
            int g1 = -9, g2 = -9;
            std::string w = in ? "ok" : "runtime_error";
            CHECK(outcome_of([&] { g1 = vk(d[e]); }) == w && outcome_of([&] { g2 = vk(cd[e]); }) == w, what << ": [" << k << "]");
            if (in)
                CHECK(g1 == it->second && g2 == g1, what << ": [" << k << "] is " << g1);
            V def = mv(77);
            const V& r = cd.get(e, def);
            CHECK(vk(r) == (in ? it->second : 77), what << ": get(" << k << ")");
            CHECK(in || &r == &def, "get returns the default itself");
        }
        CHECK(cd.size() == (int)m.size(), what << ": queries changed the size");
        if (!deep)
            return;
        Seq ks, vs;
        std::set<int> vals;
        std::vector<std::pair<int, int>> its, g4;
        for (auto& [k, v] : m)
            ks.push_back(k), vals.insert(v), its.push_back({k, v});
        auto s1 = cd.keys();
        CHECK(keys(s1) == ks && s1.size() == (int)ks.size(), what << ": keys()");
        auto s2 = cd.values();
        CHECK(keys(s2) == Seq(vals.begin(), vals.end()), what << ": values()");
        auto s3 = cd.items();
        for (auto& p : s3)
            g4.push_back({kk(p.first), vk(p.second)});
        CHECK(g4 == its && s3.size() == (int)its.size(), what << ": items()");
        Seq rv;
        for (auto it = cd.rbegin(); it != cd.rend(); ++it)
            rv.push_back(kk(it->first));
        CHECK(std::equal(rv.rbegin(), rv.rend(), ks.begin(), ks.end()), what << ": reverse iteration");
        D e = dict(m);
        CHECK(e == d && !(e != d), what << ": equality");
        if (!m.empty())
        {
            e[mk(m.begin()->first)] = mv(99);
            CHECK(!(e == d) && e != d, what << ": a changed value makes a difference");
        }
    }
    static void op(Ctx& c, D& d, M& m, int nk, int nv, bool full)
    {
        M before = m;
        c.step();
        int which = c.choose(13);
        std::string o = "ok", want = "ok";
        switch (which)
        {
            case 0: {
                int k = c.choose(nk), v = c.choose(nv);
                LOG(c, "add(" << k << "," << v << ")");
                K a = mk(k);
                V b = mv(v);
                bool r = d.add(a, b), w = m.insert({k, v}).second;
                CHECK(r == w && kk(a) == k && vk(b) == v, "add returned " << r);
                break;
            }
            case 1: {
                int k = c.choose(nk + (full ? 1 : 0));
                LOG(c, "remove(" << k << ")");
                bool r = d.remove(mk(k)), w = m.erase(k);
                CHECK(r == w, "remove(" << k << ") returned " << r);
                break;
            }
            case 2: {
                LOG(c, "pop()");
                int gk = -9, gv = -9;
                o = outcome_of([&]
                               { auto p = d.pop(); gk = kk(p.first); gv = vk(p.second); });
                if (m.empty())
                    want = "runtime_error";
                else
                {
                    CHECK(m.count(gk) && m[gk] == gv, "pop returned " << gk << ":" << gv);
                    m.erase(gk);
                }
                break;
            }
            case 3: {
                int k = c.choose(nk), v = c.choose(nv);
                LOG(c, "[" << k << "] = " << v);
                o = outcome_of([&] { d[mk(k)] = mv(v); });
                if (m.count(k))
                    m[k] = v;
                else
                    want = "runtime_error";
                break;
            }
            case 4: {
                int k1 = c.choose(nk), v1 = c.choose(nv), k2 = c.choose(nk), v2 = full ? (int)c.choose(nv) : 1 - v1;
                LOG(c, "extend " << k1 << ":" << v1 << "," << k2 << ":" << v2);
                std::vector<std::pair<K, V>> x;
                x.push_back({mk(k1), mv(v1)});
                x.push_back({mk(k2), mv(v2)});
                d.extend(x.begin(), x.end());
                CHECK(kk(x[0].first) == k1 && vk(x[1].second) == v2, "source changed");
                m.insert({k1, v1});
                m.insert({k2, v2});
                break;
            }
            case 5: {
                LOG(c, "clear()");
                d.clear();
                m.clear();
                break;
            }
            case 6: {
                LOG(c, "extend with itself and another dict");
                d.extend(d.begin(), d.end());
                D x;
                x.add(mk(0), mv(1));
                x.add(mk(nk), mv(0));
                d.extend(x.begin(), x.end());
                m.insert({0, 1});
                m.insert({nk, 0});
                break;
            }
            case 7: {
                if (m.empty())
                    return;
                int j = full ? c.choose(m.size()) : 0;
                LOG(c, "remove own key " << j);
                auto it = d.begin();
                auto mi = m.begin();
                std::advance(it, j);
                std::advance(mi, j);
                CHECK(!d.add(it->first, it->second), "add of an own entry");
                CHECK(d.remove(it->first), "remove of an own key");
                m.erase(mi);
                break;
            }
            case 8: {
                LOG(c, "copy and copy back");
                D x(d), e;
                same(x, m, "copy", nk, false);
                e = x;
                x.add(mk(nk), mv(0));
                if (!m.empty())
                    x[mk(m.begin()->first)] = mv(55);
                d = e;
                same(e, m, "copy of the copy", nk, false);
                D& self = d;
                d = self;
                break;
            }
            case 9: {
                LOG(c, "move away and back");
                D x(std::move(d));
                same(x, m, "moved", nk, false);
                same(d, {}, "moved from", nk, false);
                CHECK(d.add(mk(1), mv(1)), "add to the moved-from dict");
                same(d, {{1, 1}}, "moved-from dict used again", nk, false);
                d = std::move(x);
                same(x, {}, "move-assigned from", nk, false);
                std::swap(x, d);
                same(d, {}, "swapped", nk, false);
                std::swap(x, d);
                break;
            }
            case 10: {
                int k = c.choose(nk);
                LOG(c, "add, assign, remove, add " << k);
                bool had = m.count(k);
                CHECK(d.add(mk(k), mv(0)) == !had, "add");
                CHECK(!d.add(mk(k), mv(1)), "second add");
                d[mk(k)] = mv(1);
                CHECK(vk(d[mk(k)]) == 1, "assigned");
                CHECK(d.remove(mk(k)) && !d.remove(mk(k)) && d.add(mk(k), mv(0)), "remove, add");
                m[k] = 0;
                break;
            }
            case 11: {
                // a reference obtained by indexing keeps denoting the entry while others come and go
                if (m.empty())
                    return;
                int k = m.begin()->first;
                LOG(c, "reference to [" << k << "]");
                V& r = d[mk(k)];
                d.add(mk(nk), mv(0));
                m.insert({nk, 0});
                r = mv(1);
                m[k] = 1;
                break;
            }
            case 12: {
                int k = c.choose(nk);
                LOG(c, "value of one entry assigned to another " << k);
                if (m.empty())
                    return;
                int k0 = m.rbegin()->first;
                o = outcome_of([&] { d[mk(k)] = d[mk(k0)]; });
                if (m.count(k))
                    m[k] = m[k0];
                else
                    want = "runtime_error";
                break;
            }
        }
        CHECK(o == want, "outcome " << o << " expected " << want << " on " << sh(before));
        if (want != "ok")
            m = before;
        same(d, m, "dict after the operation", nk, full);
        c.state(name() + sh(m));
        c.outcome(std::to_string(which) + o);
    }
    static void reg(bool T)
    {
        mc::scenario(name() + "/all-states", 32, [T](Ctx& c)
                     {
                         M m = small(c, T ? 5 : 4, 2);
                         LOG(c, sh(m));
                         D d = dict(m);
                         op(c, d, m, T ? 5 : 4, 2, true);
                     });
        mc::scenario(name() + "/pairs", 64, [T](Ctx& c)
                     {
                         M m = small(c, T ? 3 : 2, 2);
                         LOG(c, sh(m));
                         D d = dict(m);
                         op(c, d, m, 3, 2, true);
                         op(c, d, m, 3, 2, false);
                         same(d, m, "dict", 4);
                     });
        mc::scenario(name() + "/histories", 64, [T](Ctx& c)
                     {
                         D d;
                         M m;
                         for (int i = 0, n = 3 + (T && std::is_same_v<K, int>); i < n; ++i)
                             op(c, d, m, 2, 2, false);
                         same(d, m, "dict", 3);
                     });
        mc::scenario(name() + "/orders", 60, [T](Ctx& c)
                     {
                         int n = 5;
                         D d;
                         M m;
                         std::vector<int> rest;
                         for (int i = 0; i < n; ++i)
                             rest.push_back(i);
                         auto left = rest;
                         while (!left.empty())
                         {
                             int i = c.choose(left.size()), v = left[i];
                             left.erase(left.begin() + i);
                             LOG(c, "add " << v);
                             CHECK(d.add(mk(v), mv(v * 3 % 4)), "add");
                             m[v] = v * 3 % 4;
                             c.step();
                         }
                         same(d, m, "dict", n);
                         left = rest;
                         while (left.size() > 1)
                         {
                             int i = c.choose(left.size()), v = left[i];
                             left.erase(left.begin() + i);
                             LOG(c, "remove " << v);
                             CHECK(d.remove(mk(v)), "remove");
                             m.erase(v);
                             c.step();
                         }
                         same(d, m, "dict", n);
                     });
        if (sizeof(K) == 1)
            return;
        mc::scenario(name() + "/sizes", 32, [T](Ctx& c)
                     {
                         static const std::vector<int> ns{7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000};
                         int n = c.of(ns), kind = c.choose(5), mod = std::vector<int>{n, n / 2 + 1, 3}[c.choose(3)];
                         LOG(c, "n " << n << " kind " << kind << " mod " << mod);
                         Seq q = structured(n, kind);
                         D d;
                         M m;
                         for (int i = 0; i < n; ++i)
                         {
                             int k = (q[i] % mod + mod) % mod;
                             CHECK(d.add(mk(k), mv(i)) == m.insert({k, i}).second, "add " << k);
                             c.step();
                         }
                         same(d, m, "large dict", 40);
                         for (auto& [k, v] : m)
                             if (k % 3 == 0)
                                 d[mk(k)] = mv(v = 5);
                         int st = 1 + c.choose(3);
                         for (int i = 0; i < n; i += st)
                             CHECK(d.remove(mk(i)) == (m.erase(i) == 1), "remove " << i);
                         same(d, m, "large dict reduced", 40);
                         while (!m.empty())
                         {
                             auto p = d.pop();
                             int k = kk(p.first);
                             CHECK(m.count(k) && m[k] == vk(p.second), "pop returned " << k);
                             m.erase(k);
                         }
                         CHECK(d.is_empty(), "empty after popping everything");
                         c.beat();
                     });
    }
};

void register_scenarios()
{
    bool T = mc::G.tier;
    mc::scenario("beyond 16 bits", 8, [T](Ctx& c)
                 {
                     int n = c.of(T ? std::vector<int>{32767, 32768, 65535, 65536, 65537, 131073} : std::vector<int>{32768, 65537}), kind = c.choose(4), st = 1 + c.choose(3);
                     Seq q = structured(n, kind);
                     if (kind == 2)
                         for (int i = 0; i < n; ++i)
                             q[i] = (i * 7919l) % n;
                     LOG(c, n << " pairs of kind " << kind << " step " << st);
                     Dict<int, int> d;
                     std::map<int, int> m;
                     for (int i = 0; i < n; ++i)
                         CHECK(d.add(q[i], i) == m.insert({q[i], i}).second, "add " << q[i]);
                     auto same = [&](const char* what)
                     {
                         const Dict<int, int>& cd = d;
                         CHECK(d.size() == (int)m.size() && std::equal(cd.begin(), cd.end(), m.begin(), m.end(), [](auto& x, auto& y) { return x.first == y.first && x.second == y.second; }), what);
                         for (int k = 0; k <= n; ++k)
                             CHECK(d.contains(k) == (m.count(k) == 1) && (!m.count(k) || (d[k] == m[k] && d.get(k, -1) == m[k] && d.find(k)->second == m[k])), what << ": key " << k);
                     };
                     same("large dict");
                     for (auto& [k, v] : m)
                         if (k % 7 == 0)
                             d[k] = v = -k;
                     CHECK(d.keys().size() == (int)m.size() && d.values().size() == (int)m.size() && d.items().size() == (int)m.size(), "keys, values, items");
                     for (int i = 0; i < n; i += st)
                         CHECK(d.remove(i) == (m.erase(i) == 1), "remove " << i);
                     same("large dict reduced");
                     while (!m.empty())
                     {
                         auto p = d.pop();
                         auto it = m.find(p.first);
                         CHECK(it != m.end() && it->second == p.second, "pop at " << m.size());
                         m.erase(it);
                     }
                     CHECK(d.is_empty(), "empty after popping everything");
                     c.step(4 * n);
                     c.state(n * 100l + kind * 10 + st);
                 });
    H<int, int>::reg(T);
    H<std::string, std::string>::reg(T);
    H<Tracked, Tracked>::reg(T);
    H<int, std::string>::reg(T);
    H<Padded, Padded>::reg(T);
    H<signed char, double>::reg(T);
    H<Large, Bulky>::reg(T);
    H<Bulky, Large>::reg(T);
}
