// C16: List behaves as a mutable sequence under every operation history.
#include "confam.hpp"
#include "list.hpp"
using namespace fam;
using pyincpp::List;

template <class E>
struct H
{
    typedef List<E> L;
    static E mk(int k) { return El<E>::make(k); }
    static L list(const Seq& m)
    {
        auto v = elems<E>(m);
        return L(v);
    }
    // The same operation on the list and on the model. full: every argument incl. the extreme ints.
    static void op(Ctx& c, L& l, Seq& m, int k, bool full)
    {
        int n = m.size();
        Seq before = m;
        std::string o, want = "ok";
        auto pos = [&](int lo, int hi) -> int
        {
            if (full)
                return position(c, n);
            // first, second, last, and one beyond
            int v[] = {lo, 0, n / 2, hi};
            return v[c.choose(4)];
        };
        c.step();
        int which = c.choose(22);
        switch (which)
        {
            case 0: { // insert a value
                int i = pos(-n, n), v = c.choose(k);
                LOG(c, "insert(" << i << "," << v << ")");
                o = outcome_of([&] { l.insert(i, mk(v)); });
                if (i < -n || i > n)
                    want = "runtime_error";
                else
                    m.insert(m.begin() + (i < 0 ? i + n : i), v);
                break;
            }
            case 1: { // insert one of its own elements
                if (n == 0)
                    return;
                int i = full ? c.pick(-n, n) : pos(-n, n), j = c.choose(full ? n : std::min(n, 2));
                LOG(c, "insert(" << i << ", own[" << j << "])");
                o = outcome_of([&] { l.insert(i, l[j]); });
                int v = m[j];
                m.insert(m.begin() + (i < 0 ? i + n : i), v);
                break;
            }
            case 2: { // remove
                int i = pos(-n, n - 1);
                LOG(c, "remove(" << i << ")");
                int got = -5;
                o = outcome_of([&] { got = El<E>::key(l.remove(i)); });
                if (i < -n || i >= n)
                    want = "runtime_error";
                else
                {
                    auto it = m.begin() + (i < 0 ? i + n : i);
                    CHECK(o != "ok" || got == *it, "remove(" << i << ") from " << show(before) << " returned " << got);
                    m.erase(it);
                }
                break;
            }
            case 3: {
                int v = c.choose(k);
                LOG(c, "+= " << v);
                L* r = nullptr;
                o = outcome_of([&] { r = &(l += mk(v)); });
                CHECK(r == &l, "+= returns the list");
                m.push_back(v);
                break;
            }
            case 4: {
                if (n == 0)
                    return;
                int j = full ? c.pick(-n, n - 1) : -int(c.choose(2));
                LOG(c, "+= own[" << j << "]");
                int v = m[j < 0 ? j + n : j];
                o = outcome_of([&] { l += l[j]; });
                m.push_back(v);
                break;
            }
            case 5: {
                Seq a = full ? seq(c, k, 3) : std::vector<Seq>{{}, {1, 0}}[c.choose(2)];
                LOG(c, "+= list " << show(a));
                L x = list(a);
                o = outcome_of([&] { l += x; });
                same_seq(x, a, "argument of +=");
                m.insert(m.end(), a.begin(), a.end());
                break;
            }
            case 6: {
                LOG(c, "+= itself");
                o = outcome_of([&] { l += l; });
                m.insert(m.end(), before.begin(), before.end());
                break;
            }
            case 7: {
                int v = c.choose(k);
                LOG(c, "-= " << v);
                o = outcome_of([&] { l -= mk(v); });
                auto it = std::find(m.begin(), m.end(), v);
                if (it != m.end())
                    m.erase(it);
                break;
            }
            case 8: {
                if (n == 0)
                    return;
                int j = full ? (int)c.choose(n) : n - 1;
                LOG(c, "-= own[" << j << "]");
                o = outcome_of([&] { l -= l[j]; });
                m.erase(std::find(m.begin(), m.end(), int(before[j])));
                break;
            }
            case 9: {
                static const std::vector<int> ts{2, 0, 1, 3, -1, 7, INT_MIN, -1000000000};
                int t = ts[c.choose(full ? 8 : 3)];
                LOG(c, "*= " << t);
                o = outcome_of([&] { l *= t; });
                if (t < 0)
                    want = "runtime_error";
                else
                {
                    m.clear();
                    for (int i = 0; i < t; ++i)
                        m.insert(m.end(), before.begin(), before.end());
                }
                break;
            }
            case 10: {
                int v = c.choose(k);
                LOG(c, "/= " << v);
                o = outcome_of([&] { l /= mk(v); });
                m.erase(std::remove(m.begin(), m.end(), v), m.end());
                break;
            }
            case 11: {
                if (n == 0)
                    return;
                int j = full ? (int)c.choose(n) : 0;
                LOG(c, "/= own[" << j << "]");
                int v = m[j];
                o = outcome_of([&] { l /= l[j]; });
                m.erase(std::remove(m.begin(), m.end(), v), m.end());
                break;
            }
            case 12:
            case 13: {
                int x = full ? position(c, n, 3) : (int)std::vector<int>{1, -1, 2, n + 1}[c.choose(4)];
                LOG(c, (which == 12 ? ">>= " : "<<= ") << x);
                L* r = nullptr;
                o = outcome_of([&] { r = which == 12 ? &(l >>= x) : &(l <<= x); });
                CHECK(r == &l, "rotation returns the list");
                if (n > 0)
                {
                    long left = ((which == 12 ? -(long)x : (long)x) % n + n) % n;
                    for (int i = 0; i < n; ++i)
                        m[i] = before[(i + left) % n];
                }
                break;
            }
            case 14: {
                LOG(c, "reverse()");
                o = outcome_of([&] { l.reverse(); });
                m.assign(before.rbegin(), before.rend());
                break;
            }
            case 15: {
                int a = full ? position(c, n) : (int)c.choose(3), b = full ? position(c, n) : a + (int)c.choose(3);
                LOG(c, "erase(" << a << "," << b << ")");
                o = outcome_of([&] { l.erase(a, b); });
                if (a < 0 || a > n || b < a || b > n)
                    want = "runtime_error";
                else
                    m.erase(m.begin() + a, m.begin() + b);
                break;
            }
            case 16: {
                Seq a = full ? seq(c, k, 3) : std::vector<Seq>{{}, {0, 1}}[c.choose(2)];
                LOG(c, "extend " << show(a));
                auto v = elems<E>(a);
                o = outcome_of([&] { l.extend(v.data(), v.data() + v.size()); });
                CHECK(keys(v) == a, "source of extend changed");
                m.insert(m.end(), a.begin(), a.end());
                break;
            }
            case 17: {
                int a = full ? c.choose(n + 1) : 0, b = full ? a + c.choose(n - a + 1) : n;
                LOG(c, "extend own [" << a << "," << b << ")");
                o = outcome_of([&] { l.extend(l.begin() + a, l.begin() + b); });
                m.insert(m.end(), before.begin() + a, before.begin() + b);
                break;
            }
            case 18: {
                LOG(c, "clear()");
                o = outcome_of([&] { l.clear(); });
                m.clear();
                break;
            }
            case 19: {
                int i = pos(-n, n - 1), v = c.choose(k);
                LOG(c, "[" << i << "] = " << v);
                o = outcome_of([&] { l[i] = mk(v); });
                if (i < -n || i >= n)
                    want = "runtime_error";
                else
                    m[i < 0 ? i + n : i] = v;
                break;
            }
            case 20: {
                LOG(c, "copy and copy back");
                L d(l), e;
                same_seq(d, m, "copy");
                e = d;
                d += mk(0);
                o = outcome_of([&] { l = e; });
                same_seq(e, m, "copy after assignment");
                L& self = l;
                l = self;
                break;
            }
            case 21: {
                LOG(c, "move away and back");
                L d(std::move(l));
                same_seq(d, m, "moved");
                same_seq(l, {}, "moved from");
                l += mk(1);
                same_seq(l, {1}, "moved-from list used again");
                o = outcome_of([&] { l = std::move(d); });
                same_seq(d, {}, "move-assigned from");
                std::swap(l, d);
                same_seq(l, {}, "swapped");
                std::swap(l, d);
                break;
            }
        }
        CHECK(o == want, "outcome " << o << ", expected " << want << " on " << show(before));
        if (want != "ok")
            m = before;
        same_seq(l, m, "list after the operation", full);
        c.state(El<E>::name() + show(m));
        c.outcome(std::to_string(which) + o);
    }

    static void reg(bool T)
    {
        std::string e = El<E>::name();
        // every operation, every argument, from every small list, built in different ways
        mc::scenario(e + "/all-states", 32, [T](Ctx& c)
                     {
                         int k = T ? 3 : 2;
                         Seq m = seq(c, k, 4);
                         LOG(c, show(m));
                         L l = list(m);
                         if (c.flip()) // no spare capacity / spare capacity
                         {
                             L x;
                             for (int v : m)
                                 x += mk(v);
                             l = std::move(x);
                         }
                         op(c, l, m, k, true);
                         same_seq(l, m, "list");
                         CHECK(l == list(m) && (std::is_same_v<E, double> || mc::str(l) == mc::str(List<E>(list(m)))), "equality and printing");
                     });
        if (!std::is_same_v<E, int> && std::is_trivially_copyable_v<E>)
        {
            mc::scenario(e + "/sizes", 32, [T](Ctx& c)
                         {
                             int n = c.of(std::vector<int>{17, 33, 127, 128, 129, 255, 256, 257, 513, 1025});
                             Seq m = structured(n, c.choose(5));
                             for (int& x : m)
                                 x %= 120;
                             L l = list(m);
                             op(c, l, m, 6, false);
                             if (n <= (T ? 129 : 33))
                                 op(c, l, m, 2, false);
                             same_seq(l, m, "after everything", true);
                         });
            return;
        }
        // every history of two operations with every argument
        mc::scenario(e + "/pairs", 64, [T](Ctx& c)
                     {
                         Seq m = seq(c, 2, T ? 3 : 2);
                         LOG(c, show(m));
                         L l = list(m);
                         op(c, l, m, 2, true);
                         if (m.size() > 4)
                             return;
                         op(c, l, m, 2, T);
                         same_seq(l, m, "list");
                         CHECK(l == list(m), "equality");
                     });
        mc::scenario(e + "/histories", 64, [T](Ctx& c)
                     {
                         Seq m;
                         L l;
                         int d = T ? 4 : 3;
                         m = std::vector<Seq>{{0, 1, 0}, {}}[c.choose(2)];
                         LOG(c, show(m));
                         l = list(m);
                         for (int i = 0; i < d; ++i)
                         {
                             op(c, l, m, 2, false);
                             if (m.size() > 30)
                                 break;
                         }
                         same_seq(l, m, "list");
                         CHECK(l == list(m) && !(l != list(m)), "equality");
                     });
        mc::scenario(e + "/sizes", 32, [T](Ctx& c)
                     {
                         static const std::vector<int> ns{7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097};
                         int n = ns[c.choose(T ? ns.size() : ns.size() - 3)];
                         int kind = c.choose(5);
                         Seq m = structured(n, kind);
                         L l = list(m);
                         if (c.flip())
                         {
                             l = L();
                             for (int v : m)
                                 l += mk(v);
                         }
                         op(c, l, m, 6, false);
                         if (n <= (T ? 129 : 33) && (T || kind == 2))
                             op(c, l, m, 2, false);
                         same_seq(l, m, "list", true);
                     });
    }
};

// every index and every amount, at sizes no table of cases would list
template <class E>
void everywhere(bool T)
{
    mc::scenario(El<E>::name() + std::string("/every index of long lists"), 32, [T](Ctx& c)
                 {
                     static const std::vector<int> ns{70, 130, 257, 300, 519, 1100, 2100};
                     int n = ns[c.choose(T ? 7 : 6)], block = c.choose(32), kind = c.choose(2);
                     const Seq m = structured(n, kind);
                     const auto d = H<E>::list(m);
                     for (int k = block; k <= n; k += 32)
                     {
                         c.beat();
                         LOG(c, "size " << n << " at " << k);
                         for (int amount : {k, -k, k + n})
                         {
                             auto l = d, r = d;
                             Seq w = m;
                             std::rotate(w.begin(), w.begin() + ((amount % n) + n) % n, w.end());
                             l <<= amount;
                             same_seq(l, w, "rotated left", false);
                             r >>= amount;
                             w = m;
                             std::rotate(w.begin(), w.begin() + ((-amount % n) + n) % n, w.end());
                             same_seq(r, w, "rotated right", false);
                             c.step(2);
                         }
                         auto l = d;
                         Seq w = m;
                         l.insert(k, El<E>::make(7777));
                         w.insert(w.begin() + k, 7777);
                         same_seq(l, w, "inserted", false);
                         l = d;
                         l.erase(k, n);
                         same_seq(l, Seq(m.begin(), m.begin() + k), "tail erased", false);
                         l = d;
                         l.erase(0, k);
                         same_seq(l, Seq(m.begin() + k, m.end()), "head erased", false);
                         l = d;
                         l.erase(k / 2, k);
                         w = m;
                         w.erase(w.begin() + k / 2, w.begin() + k);
                         same_seq(l, w, "middle erased", false);
                         c.step(4);
                         if (k < n)
                         {
                             l = d;
                             w = m;
                             CHECK(El<E>::key(d[k]) == m[k] && El<E>::key(d[k - n]) == m[k] && El<E>::key(l[k]) == m[k], "index " << k);
                             CHECK(El<E>::key(l.remove(k - n)) == m[k], "removed");
                             w.erase(w.begin() + k);
                             same_seq(l, w, "removed", false);
                             l[k == n - 1 ? k - 1 : k] = El<E>::make(7777);
                             w[k == n - 1 ? k - 1 : k] = 7777;
                             int at = std::max(k - n, 1 - n); // from the end of n - 1 elements
                             l.insert(at, El<E>::make(8888));
                             w.insert(w.begin() + at + (n - 1), 8888);
                             same_seq(l, w, "written, inserted from the end", false);
                             l = d;
                             w = m;
                             l /= d[k];
                             w.erase(std::remove(w.begin(), w.end(), int(m[k])), w.end());
                             same_seq(l, w, "element removed everywhere", false);
                             c.step(5);
                         }
                     }
                     c.state(n * 1000 + block * 4 + kind);
                 });
}
// A copy of every list stays what it was while any two operations work on the other.
// Equal elements that are not the same: which of them goes and which stays.
struct Twin
{
    int key = 0, id = 0;
    friend bool operator==(const Twin& a, const Twin& b) { return a.key == b.key; }
};
void twins(bool T)
{
    mc::scenario("which of equal elements", 16, [T](Ctx& c)
                 {
                     Seq m = seq(c, 2, T ? 7 : 6);
                     int v = c.choose(3), how = c.choose(6), own = m.empty() ? 0 : c.choose(m.size() + 1);
                     LOG(c, show(m) << " way " << how << " element " << v << " own " << own);
                     std::vector<Twin> w;
                     for (std::size_t i = 0; i < m.size(); ++i)
                         w.push_back({m[i], int(i)});
                     List<Twin> l(w), r;
                     const Twin other{v, 99};
                     if (own)
                         v = m[own - 1];
                     const Twin& x = own ? l[own - 1] : other;
                     auto first = std::find_if(w.begin(), w.end(), [v](const Twin& t) { return t.key == v; });
                     switch (how)
                     {
                         case 0: r = l - x; break;
                         case 1: r = l / x; break;
                         case 2: l -= x, r = l; break;
                         case 3: l /= x, r = l; break;
                         case 4: l.uniquify(), r = l; break;
                         case 5: r = l, r.reverse(), r.reverse(), r <<= 1, r >>= 1, r *= 1; break;
                     }
                     if (how == 0 || how == 2)
                     {
                         if (first != w.end())
                             w.erase(first);
                     }
                     else if (how == 1 || how == 3)
                         w.erase(std::remove_if(w.begin(), w.end(), [v](const Twin& t) { return t.key == v; }), w.end());
                     else if (how == 4)
                     {
                         std::vector<Twin> u;
                         for (auto& t : w)
                             if (std::find(u.begin(), u.end(), t) == u.end())
                                 u.push_back(t);
                         w = u;
                     }
                     Seq got, want;
                     for (auto& t : r)
                         got.push_back(t.key * 100 + t.id);
                     for (auto& t : w)
                         want.push_back(t.key * 100 + t.id);
                     CHECK(got == want, "left " << show(got) << ", expected " << show(want) << " (100 * key + identity)");
                     c.step();
                     c.state(show(m) + std::to_string(how) + std::to_string(v)); });
}

void register_scenarios()
{
    bool T = mc::G.tier;
    twins(T);
    mc::scenario("beyond 16 bits", 16, [T](Ctx& c)
                 {
                     int n = c.of(T ? std::vector<int>{32767, 32768, 65535, 65536, 65537, 131073, 1048577, 16777217} : std::vector<int>{32768, 65537, 1048577}), kind = c.choose(3), how = c.choose(7);
                     Seq m = structured(n, kind);
                     List<int> l(m.data(), m.data() + n);
                     LOG(c, n << " elements of kind " << kind << ", way " << how);
                     const std::vector<int> at{0, 1, n / 2, n - 2, n - 1, -1, -2, -n, 32767, -32768, std::min(n - 1, 65536)};
                     switch (how)
                     {
                         case 0:
                             for (int i : at)
                             {
                                 int v = 1000000 + i;
                                 m.insert(m.begin() + (i < 0 ? std::max(0, i + (int)m.size()) : i), v);
                                 l.insert(i, v);
                                 CHECK(l.size() == (int)m.size() && l.contains(v), "inserted at " << i);
                             }
                             break;
                         case 1:
                             for (int i : at)
                             {
                                 if (i >= (int)m.size() || i < -(int)m.size())
                                     continue;
                                 int j = i < 0 ? i + (int)m.size() : i;
                                 CHECK(l.remove(i) == m[j], "removed at " << i);
                                 m.erase(m.begin() + j);
                             }
                             break;
                         case 2:
                             for (int i : at)
                             {
                                 if (i >= n || i < -n)
                                     continue;
                                 int j = i < 0 ? i + n : i;
                                 CHECK(l[i] == m[j], "element " << i);
                                 l[i] = m[j] = 2000000 + j;
                             }
                             break;
                         case 3:
                             l += l;
                             m.insert(m.end(), m.begin(), m.end());
                             break;
                         case 4:
                             l.reverse();
                             std::reverse(m.begin(), m.end());
                             break;
                         case 5:
                             for (int k : {1, -1, n / 3, 65536, -65535, n + 1})
                             {
                                 l <<= k;
                                 std::rotate(m.begin(), m.begin() + (k % n + n) % n, m.end());
                             }
                             break;
                         case 6: {
                             List<int> r = l;
                             r[-1] = -7;
                             CHECK(l < r == (m[n - 1] < -7) && l != r && !(l == r) && r.find(-7) == r.end() - 1 && l.count(m[n - 1]) == (int)std::count(m.begin(), m.end(), m[n - 1]), "compared with a list that differs at the end");
                             List<int> s(m.data(), m.data() + n - 1);
                             CHECK(s < l && l > s && s != l, "compared with a prefix");
                             break;
                         }
                     }
                     same_seq(l, m, "list", false);
                     CHECK(l.find(m.back()) - l.begin() == std::find(m.begin(), m.end(), m.back()) - m.begin() && l.find(-12345) == l.end(), "find");
                     c.step(8);
                     c.state(n * 100l + kind * 10 + how);
                 });
    everywhere<int>(T);
    everywhere<std::string>(T);
    H<int>::reg(T);
    H<std::string>::reg(T);
    H<Tracked>::reg(T);
    H<Padded>::reg(T);
    H<double>::reg(T);
    H<signed char>::reg(T);
    H<Large>::reg(T);
    H<Bulky>::reg(T);
    everywhere<Padded>(T);
    // growth one element at a time through every size
    mc::scenario("growth", 4, [T](Ctx& c)
                 {
                     int kind = c.choose(4);
                     List<std::string> l;
                     Seq m;
                     int top = T ? 3000 : 800;
                     for (int i = 0; i < top; ++i)
                     {
                         c.beat();
                         auto e = El<std::string>::make(i % 1000);
                         switch (kind)
                         {
                             case 0: l += e; m.push_back(i % 1000); break;
                             case 1: l.insert(0, e); m.insert(m.begin(), i % 1000); break;
                             case 2: l.insert(l.size() / 2, e); m.insert(m.begin() + m.size() / 2, i % 1000); break;
                             case 3: if (m.size()) { l += l[0]; m.push_back(m[0]); l.insert(0, e); m.insert(m.begin(), i % 1000); } else { l += e; m.push_back(0); } break;
                         }
                         if (i % 50 == 0 || i < 70)
                             same_seq(l, m, "list");
                         c.step();
                     }
                     while (!m.empty())
                     {
                         int at = kind == 0 ? -1 : kind == 1 ? 0 : (int)m.size() / 2;
                         int got = El<std::string>::key(l.remove(at));
                         CHECK(got == m[at < 0 ? m.size() + at : at], "remove at size " << m.size());
                         m.erase(at < 0 ? m.end() - 1 : m.begin() + at);
                         if (m.size() % 50 == 0)
                             same_seq(l, m, "list");
                     }
                     CHECK(l.is_empty(), "empty at the end");
                 });
}
