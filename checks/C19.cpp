// C19: Deque behaves as a double-ended sequence under every history.
#include "confam.hpp"
#include "deque.hpp"
using namespace fam;
using pyincpp::Deque;

template <class E>
struct H
{
    typedef Deque<E> D;
    static E mk(int k) { return El<E>::make(k); }
    static int key(const E& e) { return El<E>::key(e); }
    static D deque(const Seq& m)
    {
        auto v = elems<E>(m);
        return D(v.data(), v.data() + v.size());
    }
    static void ends(D& d, const Seq& m)
    {
        const D& cd = d;
        int f = -9, b = -9;
        std::string want = m.empty() ? "runtime_error" : "ok";
        CHECK(outcome_of([&] { f = key(d.front()); b = key(d.back()); }) == want, "front/back of " << show(m));
        if (!m.empty())
            CHECK(f == m.front() && b == m.back(), "front/back are " << f << "," << b << " of " << show(m));
        CHECK(outcome_of([&] { f = key(cd.front()); }) == want && outcome_of([&] { b = key(cd.back()); }) == want, "const front/back of " << show(m));
        if (!m.empty())
            CHECK(f == m.front() && b == m.back(), "const front/back");
    }
    static void op(Ctx& c, D& d, Seq& m, int k, bool full)
    {
        int n = m.size();
        Seq before = m;
        std::string o, want = "ok";
        c.step();
        int which = c.choose(20);
        switch (which)
        {
            case 0:
            case 1: {
                int v = c.choose(k);
                LOG(c, (which ? "push_front(" : "push_back(") << v << ")");
                o = outcome_of([&] { which ? d.push_front(mk(v)) : d.push_back(mk(v)); });
                m.insert(which ? m.begin() : m.end(), v);
                break;
            }
            case 2:
            case 3: {
                if (n == 0)
                    return;
                int j = full ? c.pick(-n, n - 1) : which == 2 ? 0 : -1;
                LOG(c, (which == 3 ? "push_front(own[" : "push_back(own[") << j << "])");
                int v = m[j < 0 ? j + n : j];
                o = outcome_of([&] { which == 3 ? d.push_front(d[j]) : d.push_back(d[j]); });
                m.insert(which == 3 ? m.begin() : m.end(), v);
                break;
            }
            case 4:
            case 5: {
                LOG(c, (which == 5 ? "pop_front()" : "pop_back()"));
                int g = -9;
                o = outcome_of([&] { g = key(which == 5 ? d.pop_front() : d.pop_back()); });
                if (n == 0)
                    want = "runtime_error";
                else
                {
                    int v = which == 5 ? m.front() : m.back();
                    CHECK(o != "ok" || g == v, "pop of " << show(before) << " returned " << g);
                    m.erase(which == 5 ? m.begin() : m.end() - 1);
                }
                break;
            }
            case 6:
            case 7: {
                Seq a = full ? seq(c, k, 3) : std::vector<Seq>{{0, 1}, {}}[c.choose(2)];
                LOG(c, (which == 7 ? "extend_front " : "extend_back ") << show(a));
                auto v = elems<E>(a);
                o = outcome_of([&] { which == 7 ? d.extend_front(v.data(), v.data() + v.size()) : d.extend_back(v.begin(), v.end()); });
                CHECK(keys(v) == a, "source changed");
                m.insert(which == 7 ? m.begin() : m.end(), a.begin(), a.end());
                break;
            }
            case 8:
            case 9: {
                int a = full ? c.choose(n + 1) : 0, b = full ? a + c.choose(n - a + 1) : n;
                LOG(c, (which == 9 ? "extend_front own [" : "extend_back own [") << a << "," << b << ")");
                o = outcome_of([&] { which == 9 ? d.extend_front(d.begin() + a, d.begin() + b) : d.extend_back(d.begin() + a, d.begin() + b); });
                m.insert(which == 9 ? m.begin() : m.end(), before.begin() + a, before.begin() + b);
                break;
            }
            case 10:
            case 11: {
                int x = full ? position(c, n, 3) : (int)std::vector<int>{1, -1, 2, n + 1}[c.choose(4)];
                LOG(c, (which == 10 ? ">>= " : "<<= ") << x);
                D* r = nullptr;
                o = outcome_of([&] { r = which == 10 ? &(d >>= x) : &(d <<= x); });
                CHECK(r == &d, "rotation returns the deque");
                if (n > 0)
                {
                    long left = ((which == 10 ? -(long)x : (long)x) % n + n) % n;
                    for (int i = 0; i < n; ++i)
                        m[i] = before[(i + left) % n];
                }
                break;
            }
            case 12: {
                LOG(c, "reverse()");
                o = outcome_of([&] { d.reverse(); });
                m.assign(before.rbegin(), before.rend());
                break;
            }
            case 13: {
                LOG(c, "clear()");
                o = outcome_of([&] { d.clear(); });
                m.clear();
                break;
            }
            case 14: {
                int i = full ? position(c, n) : (int)std::vector<int>{0, n - 1, -1, -n, n}[c.choose(5)], v = c.choose(k);
                LOG(c, "[" << i << "] = " << v);
                o = outcome_of([&] { d[i] = mk(v); });
                if (i < -n || i >= n)
                    want = "runtime_error";
                else
                    m[i < 0 ? i + n : i] = v;
                break;
            }
            case 15: {
                int v = c.choose(k);
                bool f = c.flip();
                LOG(c, (f ? "front() = " : "back() = ") << v);
                o = outcome_of([&] { (f ? d.front() : d.back()) = mk(v); });
                if (n == 0)
                    want = "runtime_error";
                else
                    (f ? m.front() : m.back()) = v;
                break;
            }
            case 16: {
                LOG(c, "copy and copy back");
                D x(d), e;
                same_seq(x, m, "copy");
                CHECK(x == d && !(x != d) && (x <=> d) == 0, "copy equals source");
                e = x;
                x.push_front(mk(0));
                CHECK(!(x == e), "grown copy differs");
                o = outcome_of([&] { d = e; });
                same_seq(e, m, "copy after assignment");
                D& self = d;
                d = self;
                break;
            }
            case 17: {
                LOG(c, "move away and back");
                D x(std::move(d));
                same_seq(x, m, "moved");
                same_seq(d, {}, "moved from");
                ends(d, {});
                d.push_front(mk(1));
                same_seq(d, {1}, "moved-from deque used again");
                o = outcome_of([&] { d = std::move(x); });
                same_seq(x, {}, "move-assigned from");
                std::swap(x, d);
                same_seq(d, {}, "swapped");
                std::swap(x, d);
                break;
            }
            case 18: { // the queue and stack disciplines keep the storage moving
                LOG(c, "rotate by pushing and popping");
                int t = full ? 1 + c.choose(n + 2) : 2;
                for (int i = 0; i < t && n > 0; ++i)
                {
                    d.push_back(d.pop_front());
                    int v = m.front();
                    m.erase(m.begin());
                    m.push_back(v);
                }
                o = "ok";
                break;
            }
            case 19: {
                int i = full ? position(c, n) : (int)c.choose(3) - 1;
                const D& cd = d;
                int g = -9;
                LOG(c, "read [" << i << "]");
                o = outcome_of([&] { g = key(cd[i]); });
                if (i < -n || i >= n)
                    want = "runtime_error";
                else
                    CHECK(g == m[i < 0 ? i + n : i], "[" << i << "] is " << g << " in " << show(m));
                break;
            }
        }
        CHECK(o == want, "outcome " << o << ", expected " << want << " on " << show(before));
        if (want != "ok")
            m = before;
        same_seq(d, m, "deque after the operation", full);
        ends(d, m);
        c.state(El<E>::name() + show(m));
        c.outcome(std::to_string(which) + o);
    }
    static void reg(bool T)
    {
        std::string e = El<E>::name();
        mc::scenario(e + "/all-states", 32, [T](Ctx& c)
                     {
                         int k = T ? 3 : 2;
                         Seq m = seq(c, k, T ? 5 : 4);
                         LOG(c, show(m));
                         D d = deque(m);
                         if (c.flip())
                         {
                             D x;
                             for (std::size_t i = m.size(); i-- > 0;)
                                 x.push_front(mk(m[i]));
                             d = std::move(x);
                         }
                         op(c, d, m, k, true);
                         same_seq(d, m, "deque");
                         CHECK(d == deque(m) && !(d < deque(m)) && d <= deque(m), "comparison");
                     });
        if (!std::is_same_v<E, int> && std::is_trivially_copyable_v<E>)
        {
            mc::scenario(e + "/sizes", 32, [T](Ctx& c)
                         {
                             int n = c.of(std::vector<int>{17, 33, 127, 128, 129, 255, 256, 257, 513, 1025});
                             Seq m = structured(n, c.choose(5));
                             for (int& x : m)
                                 x %= 120;
                             D l = deque(m);
                             op(c, l, m, 6, false);
                             if (n <= (T ? 129 : 33))
                                 op(c, l, m, 2, false);
                             same_seq(l, m, "after everything", true);
                         });
            return;
        }
        mc::scenario(e + "/pairs", 64, [T](Ctx& c)
                     {
                         Seq m = seq(c, 2, T ? 3 : 2);
                         LOG(c, show(m));
                         D d = deque(m);
                         op(c, d, m, 2, true);
                         if (m.size() > 4)
                             return;
                         op(c, d, m, 2, T);
                         same_seq(d, m, "deque");
                     });
        mc::scenario(e + "/histories", 64, [T](Ctx& c)
                     {
                         Seq m = std::vector<Seq>{{0, 1, 0}, {}}[c.choose(2)];
                         LOG(c, show(m));
                         D d = deque(m);
                         int depth = T ? 4 : 3;
                         for (int i = 0; i < depth && m.size() <= 40; ++i)
                             op(c, d, m, 2, false);
                         same_seq(d, m, "deque");
                         CHECK(d == deque(m), "equality");
                     });
        // storage node boundaries: 512 bytes per node in libstdc++
        mc::scenario(e + "/sizes", 32, [T](Ctx& c)
                     {
                         static const std::vector<int> ns{7, 8, 15, 16, 17, 20, 21, 22, 31, 32, 33, 41, 42, 43, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097};
                         int n = ns[c.choose(T ? ns.size() : ns.size() - 1)];
                         int kind = c.choose(4);
                         Seq m = structured(n, kind);
                         D d = deque(m);
                         if (c.flip())
                         {
                             d = D();
                             for (std::size_t i = m.size(); i-- > 0;)
                                 d.push_front(mk(m[i]));
                         }
                         op(c, d, m, 6, false);
                         if (n <= (T ? 129 : 33) && (T || kind == 2))
                             op(c, d, m, 2, false);
                         same_seq(d, m, "deque");
                     });
    }
};

// every rotation amount and every index at sizes over several storage nodes
template <class E>
void everywhere(bool T)
{
    mc::scenario(El<E>::name() + std::string("/every index of long deques"), 32, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{130, 257, 300, 519, 600, 1100, 2100};
                     int n = ns[c.choose(T ? 7 : 6)], block = c.choose(32), kind = c.choose(2);
                     const Seq m = structured(n, kind);
                     const auto d = H<E>::deque(m);
                     for (int k = block; k <= n; k += 32)
                     {
                         c.beat();
                         LOG(c, "size " << n << " amount " << k);
                         for (int amount : {k, -k, k + n})
                         {
                             auto l = d, r = d;
                             Seq w = m;
                             std::rotate(w.begin(), w.begin() + ((amount % n) + n) % n, w.end());
                             l <<= amount;
                             same_seq(l, w, "rotated left", false);
                             r >>= amount;
                             w = m;
                             std::rotate(w.begin(), w.begin() + ((-amount % n) + n) % n, w.end());
                             same_seq(r, w, "rotated right", false);
                             c.step(2);
                         }
                         if (k < n)
                         {
                             auto l = d;
                             CHECK(El<E>::key(d[k]) == m[k] && El<E>::key(d[k - n]) == m[k] && El<E>::key(l[k]) == m[k], "index " << k);
                             l[k] = El<E>::make(7777);
                             Seq w = m;
                             w[k] = 7777;
                             same_seq(l, w, "written", false);
                             while (l.size() > k)
                                 CHECK(El<E>::key(l.pop_back()) == w[l.size()], "pop_back down to " << k);
                             while (!l.is_empty())
                                 CHECK(El<E>::key(l.pop_front()) == w[k - 1 - l.size()], "pop_front from " << k);
                         }
                     }
                     c.state(n * 1000 + block * 4 + kind);
                 });
}
void register_scenarios()
{
    bool T = mc::G.tier;
    everywhere<int>(T);
    everywhere<std::string>(T);
    H<int>::reg(T);
    H<std::string>::reg(T);
    H<Tracked>::reg(T);
    H<Padded>::reg(T);
    H<double>::reg(T);
    H<signed char>::reg(T);
    H<Large>::reg(T);
    H<Bulky>::reg(T);
    everywhere<Padded>(T);
    mc::scenario("beyond 16 bits", 16, [T](Ctx& c)
                 {
                     int n = c.of(T ? std::vector<int>{32767, 32768, 65535, 65536, 65537, 131073, 1048577, 16777217} : std::vector<int>{32768, 65537, 1048577}), kind = c.choose(3), how = c.choose(7);
                     Seq m = structured(n, kind);
                     Deque<int> d(m.data(), m.data() + n);
                     LOG(c, n << " elements of kind " << kind << ", way " << how);
                     switch (how)
                     {
                         case 0:
                             for (int k : {1, -1, n / 3, 65536, -65535, n + 1, -n - 1})
                             {
                                 d <<= k;
                                 std::rotate(m.begin(), m.begin() + (k % n + n) % n, m.end());
                             }
                             break;
                         case 1:
                             for (int k : {1, -1, n / 3, 65536, -65535, n + 1, -n - 1})
                             {
                                 d >>= k;
                                 std::rotate(m.begin(), m.begin() + (-(k % n) + n) % n, m.end());
                             }
                             break;
                         case 2:
                             d.extend_back(d.begin(), d.end());
                             m.insert(m.end(), m.begin(), m.end());
                             break;
                         case 3:
                             d.extend_front(d.begin(), d.end());
                             m.insert(m.end(), m.begin(), m.end());
                             break;
                         case 4:
                             d.reverse();
                             std::reverse(m.begin(), m.end());
                             break;
                         case 5:
                         {
                             std::size_t lo = 0, hi = m.size();
                             while (hi - lo > 100)
                             {
                                 CHECK(d.pop_front() == m[lo] && d.pop_back() == m[hi - 1], "popped from both ends of " << hi - lo);
                                 ++lo, --hi;
                                 if ((hi - lo) % 4096 < 2)
                                 {
                                     c.beat();
                                     CHECK(d.size() == int(hi - lo) && d.front() == m[lo] && d.back() == m[hi - 1], "ends at " << hi - lo);
                                 }
                             }
                             m = Seq(m.begin() + lo, m.begin() + hi);
                             break;
                         }
                         case 6:
                             for (int i : {0, 1, n / 2, n - 1, -1, -n, std::min(n - 1, 32767), std::max(-n, -32768), std::min(n - 1, 65536)})
                             {
                                 CHECK(d[i] == m[i < 0 ? i + n : i], "element " << i);
                                 d[i] = m[i < 0 ? i + n : i] = 3000000 + i;
                             }
                             break;
                     }
                     same_seq(d, m, "deque", false);
                     c.step(8);
                     c.state(n * 100l + kind * 10 + how);
                 });
    mc::scenario("queue disciplines", 16, [T](Ctx& c)
                 {
                     // a pushes at end x, b pops at end y, through many storage nodes
                     int a = 1 + c.choose(4), b = 1 + c.choose(4), x = c.choose(2), y = c.choose(2), start = std::vector<int>{0, 1, 15, 16, 17, 128, 300}[c.choose(7)];
                     Deque<std::string> d;
                     std::deque<int> m; // ids
                     int id = 0;
                     LOG(c, "start " << start << " push " << a << " pop " << b << " ends " << x << y);
                     auto push = [&] { auto e = El<std::string>::make(id % 100000); if (x) d.push_back(e), m.push_back(id); else d.push_front(e), m.push_front(id); ++id; };
                     for (int i = 0; i < start; ++i)
                         push();
                     for (int r = 0; r < (T ? 600 : 150); ++r)
                     {
                         for (int i = 0; i < a; ++i)
                             push();
                         for (int i = 0; i < b; ++i)
                         {
                             if (m.empty())
                             {
                                 CHECK(outcome_of([&] { y ? d.pop_back() : d.pop_front(); }) == "runtime_error", "pop of empty");
                                 continue;
                             }
                             int g = El<std::string>::key(y ? d.pop_back() : d.pop_front());
                             int w = y ? m.back() : m.front();
                             y ? m.pop_back() : m.pop_front();
                             CHECK(g == w, "popped " << g << " expected " << w);
                         }
                         CHECK(d.size() == (int)m.size(), "size");
                         c.step(a + b);
                         c.beat();
                     }
                     CHECK(keys(d) == Seq(m.begin(), m.end()), "content");
                 });
}
