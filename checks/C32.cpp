// parts: 6
// C32 - a rejected operation raises a runtime error and changes nothing.
// Every history  state - any operation - operation under test - any operation : the operation under test has to be
// accepted exactly on its documented domain; after a rejection the object must look and behave like a twin that
// never saw the rejected call.
#include "confam.hpp"
#include "intfam.hpp"
#include "fracfam.hpp"
#include "pyincpp.hpp"
using namespace fam;
using namespace pyincpp;
using mc::quote;

namespace
{
template <class T>
struct Op
{
    std::string name;
    int n;                                     // number of arguments to try
    std::function<std::string(T&, int)> run;   // result as text
    std::function<bool(const T&, int)> valid = nullptr; // documented domain (everything when absent)
    bool rejects() const { return bool(valid); }
};
template <class T>
struct Sys
{
    std::string name;
    std::vector<std::function<T()>> states;
    std::function<std::string(const T&)> show;
    std::vector<Op<T>> ops;
};
template <class T>
std::string guarded(Op<T>& op, T& t, int arg, std::string& result)
{
    return outcome_of([&] { result = op.run(t, arg); });
}
// An argument of a neighbouring operation: all of few, a spread of many.
int some_arg(Ctx& c, int n, int most)
{
    if (n <= most)
        return c.choose(n);
    return c.choose(most) * (n - 1) / (most - 1);
}
template <class T>
void go(Ctx& c, Sys<T>& sys)
{
    const int ns = sys.states.size(), first = c.choose(ns * (sys.ops.size() + 1)), s = first % ns;
    T obj = sys.states[s](), twin = sys.states[s]();
    std::string log = sys.name + " " + sys.show(obj);
    // one operation before (or none)
    int p = first / ns;
    if (p > 0)
    {
        auto& op = sys.ops[p - 1];
        int a = some_arg(c, op.n, mc::G.tier ? 8 : 2);
        if (op.valid && !op.valid(obj, a))
            return; // two rejections in a row: the first one is covered by itself
        std::string r;
        log += " " + op.name + "#" + std::to_string(a);
        std::string o = guarded(op, obj, a, r), q = guarded(op, twin, a, r);
        CHECK(o == "ok" && q == "ok", log << ": valid arguments, but the outcome is " << o);
        c.step(2);
    }
    // the operation under test
    std::vector<int> tested;
    for (std::size_t i = 0; i < sys.ops.size(); ++i)
        if (sys.ops[i].rejects())
            tested.push_back(i);
    auto& op = sys.ops[c.of(tested)];
    int a = c.choose(op.n);
    bool valid = op.valid(std::as_const(obj), a);
    std::string before = sys.show(obj), r;
    log += ", then " + op.name + "#" + std::to_string(a) + (valid ? " (valid)" : " (to be rejected)");
    LOG(c, log);
    std::string o = guarded(op, obj, a, r);
    c.step();
    c.state(sys.name + before + op.name + char('0' + a));
    if (valid)
    {
        CHECK(o == "ok", log << ": the outcome is " << o);
        return;
    }
    CHECK(o == "runtime_error", log << ": the outcome is " << o << (o == "ok" ? " with result " + r : ""));
    CHECK(sys.show(obj) == before, log << ": changed " << before << " into " << sys.show(obj));
    CHECK(obj == twin, log << ": no longer equal to its twin");
    // any operation afterwards
    auto& f = sys.ops[c.choose(sys.ops.size())];
    int b = some_arg(c, f.n, mc::G.tier ? 5 : 2);
    std::string r1, r2;
    std::string o1 = guarded(f, obj, b, r1), o2 = guarded(f, twin, b, r2);
    CHECK(o1 == o2 && r1 == r2, log << ", then " << f.name << "#" << b << ": " << o1 << " " << r1 << ", but without the rejected call " << o2 << " " << r2);
    CHECK(sys.show(obj) == sys.show(twin), log << ", then " << f.name << "#" << b << ": " << sys.show(obj) << ", but without the rejected call " << sys.show(twin));
    c.step(2);
}
template <class T>
void add(std::function<Sys<T>()> build)
{
    auto sys = std::make_shared<Sys<T>>(build());
    mc::scenario(sys->name, sys->states.size() * 4, [sys](Ctx& c)
                 { go(c, *sys); });
}
const int POS[] = {0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 1000, INT_MAX, INT_MIN, INT_MIN + 1};
const int NPOS = std::size(POS);
std::string n(long long v)
{
    return std::to_string(v);
}

template <class E>
Sys<List<E>> s_list()
{
    typedef List<E> L;
    Sys<L> s;
    s.name = std::string("List<") + El<E>::name() + ">";
    for (Seq q : {Seq{}, Seq{1}, Seq{1, 2}, Seq{2, 1, 2}, Seq{0, 1, 2, 3}})
        s.states.push_back([q] { auto v = elems<E>(q); return L(v.begin(), v.end()); });
    s.show = [](const L& l) { return show(keys(l)) + n(l.size()); };
    auto in = [](int i, int lo, int hi) { return i >= lo && i < hi; };
    auto idx = [=](const L& l, int k) { return in(POS[k], -l.size(), l.size()); };
    s.ops = {
        {"[] const", NPOS, [](L& l, int k) { return n(El<E>::key(std::as_const(l)[POS[k]])); }, idx},
        {"[] =", NPOS, [](L& l, int k) { l[POS[k]] = El<E>::make(7); return std::string(); }, idx},
        {"insert", NPOS, [](L& l, int k) { l.insert(POS[k], El<E>::make(8)); return std::string(); }, [=](const L& l, int k) { return in(POS[k], -l.size(), l.size() + 1); }},
        {"remove", NPOS, [](L& l, int k) { return n(El<E>::key(l.remove(POS[k]))); }, idx},
        {"erase", 64, [](L& l, int k) { l.erase(k / 8 - 2, k % 8 - 2); return std::string(); }, [](const L& l, int k) { int a = k / 8 - 2, b = k % 8 - 2; return a >= 0 && b >= a && b <= l.size(); }},
        {"erase extreme", 4, [](L& l, int k) { static const int v[] = {INT_MIN, INT_MAX}; l.erase(v[k / 2], v[k % 2]); return std::string(); }, [](const L&, int) { return false; }},
        {"slice", 300, [](L& l, int k) { static const int st[] = {-1, 0, 2}; return show(keys(l.slice(k / 30 - 5, k / 3 % 10 - 5, st[k % 3]))); },
         [](const L& l, int k) { int a = k / 30 - 5, b = k / 3 % 10 - 5, z = l.size(); return k % 3 != 1 && a >= -z && a < z && b >= -z - 1 && b <= z; }},
        {"slice extreme", 4, [](L& l, int k) { static const int v[] = {INT_MIN, INT_MAX}; return show(keys(l.slice(v[k / 2], v[k % 2]))); }, [](const L&, int) { return false; }},
        {"* negative", 3, [](L& l, int k) { static const int v[] = {-1, -7, INT_MIN}; return show(keys(l * v[k])); }, [](const L&, int) { return false; }},
        {"*= negative", 3, [](L& l, int k) { static const int v[] = {-1, -7, INT_MIN}; l *= v[k]; return std::string(); }, [](const L&, int) { return false; }},
        {"* too often", 1, [](L& l, int) { return show(keys(l * (l.is_empty() ? 1000 : INT_MAX))); }, [](const L& l, int) { return l.size() == 0; }},
        {"*= too often", 1, [](L& l, int) { l *= l.is_empty() ? 1000 : INT_MAX; return std::string(); }, [](const L& l, int) { return l.size() == 0; }},
        {"*= 0..2", 3, [](L& l, int k) { l *= k; return std::string(); }, [](const L&, int) { return true; }},
        {"+=", 1, [](L& l, int) { l += El<E>::make(9); return std::string(); }},
        {"-= /=", 2, [](L& l, int k) { k ? l -= El<E>::make(2) : l /= El<E>::make(2); return std::string(); }},
        {"rotate", 2, [](L& l, int k) { k ? l >>= 1 : l <<= 4; return std::string(); }},
        {"order", 3, [](L& l, int k) { k == 0 ? l.reverse() : k == 1 ? l.sort() : l.uniquify(); return std::string(); }},
        {"index/count", 2, [](L& l, int k) { return n(k ? l.index(El<E>::make(2), -9, 9) : l.count(El<E>::make(2))); }},
        {"clear", 1, [](L& l, int) { l.clear(); return std::string(); }}};
    return s;
}
template <class E>
Sys<Deque<E>> s_deque()
{
    typedef Deque<E> D;
    Sys<D> s;
    s.name = std::string("Deque<") + El<E>::name() + ">";
    for (Seq q : {Seq{}, Seq{1}, Seq{1, 2}, Seq{2, 1, 2}, Seq{0, 1, 2, 3}})
        s.states.push_back([q] { auto v = elems<E>(q); return D(v.begin(), v.end()); });
    s.show = [](const D& l) { return show(keys(l)) + n(l.size()); };
    auto idx = [=](const D& l, int k) { return POS[k] >= -l.size() && POS[k] < l.size(); };
    auto some = [](const D& l, int) { return l.size() > 0; };
    s.ops = {
        {"[] const", NPOS, [](D& l, int k) { return n(El<E>::key(std::as_const(l)[POS[k]])); }, idx},
        {"[] =", NPOS, [](D& l, int k) { l[POS[k]] = El<E>::make(7); return std::string(); }, idx},
        {"back", 2, [](D& l, int k) { return n(El<E>::key(k ? l.back() : std::as_const(l).back())); }, some},
        {"front", 2, [](D& l, int k) { return n(El<E>::key(k ? l.front() : std::as_const(l).front())); }, some},
        {"back/front =", 2, [](D& l, int k) { (k ? l.front() : l.back()) = El<E>::make(6); return std::string(); }, some},
        {"pop_back", 1, [](D& l, int) { return n(El<E>::key(l.pop_back())); }, some},
        {"pop_front", 1, [](D& l, int) { return n(El<E>::key(l.pop_front())); }, some},
        {"push", 2, [](D& l, int k) { k ? l.push_back(El<E>::make(9)) : l.push_front(El<E>::make(8)); return std::string(); }},
        {"rotate", 4, [](D& l, int k) { k == 0 ? l >>= 1 : k == 1 ? l <<= 4 : k == 2 ? l >>= INT_MIN : l <<= INT_MIN; return std::string(); }, [](const D&, int) { return true; }},
        {"reverse", 1, [](D& l, int) { l.reverse(); return std::string(); }},
        {"clear", 1, [](D& l, int) { l.clear(); return std::string(); }}};
    return s;
}
template <class E>
Sys<Set<E>> s_set()
{
    typedef Set<E> S;
    Sys<S> s;
    s.name = std::string("Set<") + El<E>::name() + ">";
    for (Seq q : {Seq{}, Seq{1}, Seq{0, 2}, Seq{0, 1, 2, 3}})
        s.states.push_back([q] { auto v = elems<E>(q); return S(v.begin(), v.end()); });
    s.show = [](const S& l) { return show(keys(l)) + n(l.size()); };
    auto some = [](const S& l, int) { return l.size() > 0; };
    auto yes = [](const S&, int) { return true; };
    s.ops = {
        {"min", 1, [](S& l, int) { return n(El<E>::key(l.min())); }, some},
        {"max", 1, [](S& l, int) { return n(El<E>::key(l.max())); }, some},
        {"pop", 1, [](S& l, int) { return n(El<E>::key(l.pop())); }, some},
        {"add", 4, [](S& l, int k) { return n(l.add(El<E>::make(k))); }, yes},
        {"remove", 4, [](S& l, int k) { return n(l.remove(El<E>::make(k))); }, yes},
        {"ops", 4, [](S& l, int k) { S o{El<E>::make(1), El<E>::make(5)}; k == 0 ? l &= o : k == 1 ? l |= o : k == 2 ? l -= o : l ^= o; return std::string(); }, yes},
        {"clear", 1, [](S& l, int) { l.clear(); return std::string(); }}};
    return s;
}
template <class K, class V>
Sys<Dict<K, V>> s_dict()
{
    typedef Dict<K, V> D;
    Sys<D> s;
    s.name = std::string("Dict<") + El<K>::name() + ", " + El<V>::name() + ">";
    for (Seq q : {Seq{}, Seq{1}, Seq{0, 2}, Seq{0, 1, 2, 3}})
        s.states.push_back([q] { D d; for (int k : q) d.add(El<K>::make(k), El<V>::make(3 - k)); return d; });
    s.show = [](const D& d)
    {
        std::string o;
        for (auto& [k, v] : d)
            o += n(El<K>::key(k)) + ":" + n(El<V>::key(v)) + " ";
        return o + n(d.size());
    };
    auto some = [](const D& l, int) { return l.size() > 0; };
    auto has = [](const D& d, int k) { for (auto& [x, v] : d) if (El<K>::key(x) == k) return true; return false; };
    auto yes = [](const D&, int) { return true; };
    s.ops = {
        {"[] const", 5, [](D& d, int k) { return n(El<V>::key(std::as_const(d)[El<K>::make(k)])); }, has},
        {"[]", 5, [](D& d, int k) { return n(El<V>::key(d[El<K>::make(k)])); }, has},
        {"[] =", 5, [](D& d, int k) { d[El<K>::make(k)] = El<V>::make(9); return std::string(); }, has},
        {"get", 5, [](D& d, int k) { V z = El<V>::make(77); return n(El<V>::key(d.get(El<K>::make(k), z))); }, yes},
        {"min", 1, [](D& d, int) { return n(El<K>::key(d.min())); }, some},
        {"max", 1, [](D& d, int) { return n(El<K>::key(d.max())); }, some},
        {"pop", 1, [](D& d, int) { auto p = d.pop(); return n(El<K>::key(p.first)) + n(El<V>::key(p.second)); }, some},
        {"add", 5, [](D& d, int k) { return n(d.add(El<K>::make(k), El<V>::make(5))); }, yes},
        {"remove", 5, [](D& d, int k) { return n(d.remove(El<K>::make(k))); }, yes},
        {"views", 1, [](D& d, int) { return n(d.keys().size()) + n(d.values().size()) + n(d.items().size()); }, yes},
        {"clear", 1, [](D& d, int) { d.clear(); return std::string(); }}};
    return s;
}
std::string sh(const Str& s)
{
    return quote(std::string(s.begin(), s.end()));
}
Sys<Str> s_str()
{
    Sys<Str> s;
    s.name = "Str";
    for (std::string q : {"", "1", "z", "-7", "0x1", "1.5e3"})
        s.states.push_back([q] { return Str(q); });
    s.show = sh;
    auto never = [](const Str&, int) { return false; };
    auto yes = [](const Str&, int) { return true; };
    static const char* ints[] = {"", "-", "+", " ", "12", " -12 ", "1 2", "--1", "+-1", "1a", "0x1", "1.0", "9z", "\v1", "1\n", "99999999999999999999999"};
    static const bool iok[] = {0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1};
    static const char* decs[] = {"", ".", "-", "e5", "1e", "1e+", "1.", ".5", "-.5e-2", "1..2", "1e2.5", "inf", "nan", "infinit", " 1.5 ", "1 .5", "0x1p3", "1e5 x"};
    static const bool dok[] = {0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 0};
    static const int bases[] = {-1, 0, 1, 2, 10, 36, 37, INT_MAX, INT_MIN};
    s.ops = {
        {"[]", NPOS, [](Str& s, int k) { return std::string(1, s[POS[k]]); }, [](const Str& s, int k) { return POS[k] >= -s.size() && POS[k] < s.size(); }},
        {"slice", 300, [](Str& s, int k) { static const int st[] = {-1, 0, 2}; return sh(s.slice(k / 30 - 5, k / 3 % 10 - 5, st[k % 3])); },
         [](const Str& l, int k) { int a = k / 30 - 5, b = k / 3 % 10 - 5, z = l.size(); return k % 3 != 1 && a >= -z && a < z && b >= -z - 1 && b <= z; }},
        {"erase", 64, [](Str& s, int k) { return sh(s.erase(k / 8 - 2, k % 8 - 2)); }, [](const Str& l, int k) { int a = k / 8 - 2, b = k % 8 - 2; return a >= 0 && b >= a && b <= l.size(); }},
        {"extreme", 8, [](Str& s, int k) { static const int v[] = {INT_MIN, INT_MAX}; int a = v[k / 2 % 2], b = v[k % 2]; return sh(k < 4 ? s.slice(a, b) : s.erase(a, b)); }, never},
        {"* negative", 3, [](Str& s, int k) { static const int v[] = {-1, -7, INT_MIN}; return sh(s * v[k]); }, never},
        {"* too often", 1, [](Str& s, int) { return sh(s * (s.is_empty() ? 1000 : INT_MAX)); }, [](const Str& s, int) { return s.is_empty(); }},
        {"* 0..2", 3, [](Str& s, int k) { return sh(s * k); }, yes},
        {"split", 3, [](Str& s, int k) { static const char* v[] = {"", " ", "1"}; return n(s.split(v[k]).size()); }, [](const Str&, int k) { return k != 0; }},
        {"split keeping empty", 3, [](Str& s, int k) { static const char* v[] = {"", " ", "1"}; return n(s.split(v[k], true).size()); }, [](const Str&, int k) { return k != 0; }},
        {"to_integer of", int(std::size(ints)), [](Str& s, int k) { Int i = Str(ints[k]).to_integer(); return mc::str(i); }, [](const Str&, int k) { return iok[k]; }},
        {"to_integer with base", int(std::size(bases)), [](Str& s, int k) { return mc::str(Str("1").to_integer(bases[k])); }, [](const Str&, int k) { return bases[k] >= 2 && bases[k] <= 36; }},
        {"digit too large", 4, [](Str& s, int k) { static const char* t[] = {"2", "9a", "z", "Z"}; static const int b[] = {2, 10, 35, 36}; return mc::str(Str(t[k]).to_integer(b[k])); }, [](const Str&, int k) { return k == 3; }},
        {"to_decimal of", int(std::size(decs)), [](Str& s, int k) { return mc::str(Str(decs[k]).to_decimal()); }, [](const Str&, int k) { return dok[k]; }},
        {"own to_integer", 1, [](Str& s, int) { return mc::str(s.to_integer()); }, [](const Str& s, int) { std::string t(s.begin(), s.end()); std::size_t i = t.find_first_not_of(" \t\r\n"); if (i == t.npos) return false; t = t.substr(i); t = t.substr(0, t.find_last_not_of(" \t\r\n") + 1); if (t[0] == '+' || t[0] == '-') t = t.substr(1); return !t.empty() && t.find_first_not_of("0123456789") == t.npos; }},
        {"= other", 3, [](Str& s, int k) { static const char* v[] = {"", "12345", "a longer text, allocated"}; s = Str(v[k]); return std::string(); }},
        {"= changed", 4, [](Str& s, int k) { s = k == 0 ? s.reverse() : k == 1 ? s.upper() : k == 2 ? s + 'q' : s.strip(); return std::string(); }},
        {"find/index", 2, [](Str& s, int k) { return n(k ? s.find("1", -100, INT_MAX) : s.find("1", INT_MAX, INT_MIN)); }, yes}};
    return s;
}
Sys<Int> s_int()
{
    Sys<Int> s;
    s.name = "Int";
    for (const char* q : {"0", "1", "-1", "12", "-340282366920938463463374607431768211456"})
        s.states.push_back([q] { return Int(q); });
    s.show = [](const Int& i) { return mc::str(i); };
    auto never = [](const Int&, int) { return false; };
    auto nz = [](const Int& i, int) { return !i.is_zero(); };
    static const char* lits[] = {"", "+", "-", " 1", "1 ", "--1", "+-1", "1-", "0x1", "1.0", "1e3", "-0", "+00012", "12a", "\xff"};
    static const bool ok[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0};
    static const Int zero, z2 = Int(5) - Int(5);
    auto self = [](Int& i) -> const Int& { return i; };
    s.ops = {
        {"/= 0", 2, [](Int& i, int k) { i /= k ? z2 : zero; return mc::str(i); }, never},
        {"%= 0", 2, [](Int& i, int k) { i %= k ? z2 : zero; return mc::str(i); }, never},
        {"/ 0", 2, [](Int& i, int k) { return mc::str(i / (k ? z2 : zero)); }, never},
        {"% 0", 2, [](Int& i, int k) { return mc::str(i % (k ? z2 : zero)); }, never},
        {"/= itself", 1, [](Int& i, int) { i /= i; return mc::str(i); }, nz},
        {"%= itself", 1, [](Int& i, int) { i %= i; return mc::str(i); }, nz},
        {"1 / it", 1, [](Int& i, int) { return mc::str(Int(100) / i); }, nz},
        {"1 % it", 1, [](Int& i, int) { return mc::str(Int(100) % i); }, nz},
        {"factorial", 1, [](Int& i, int) { return i > 50 ? "" : mc::str(i.factorial()); }, [](const Int& i, int) { return !i.is_negative(); }},
        {"sqrt", 1, [](Int& i, int) { return mc::str(Int::sqrt(i)); }, [](const Int& i, int) { return !i.is_negative(); }},
        {"log of it", 5, [](Int& i, int k) { return mc::str(Int::log(i, k - 1)); }, [](const Int& i, int k) { return i.is_positive() && k - 1 >= 2; }},
        {"log in base it", 3, [](Int& i, int k) { return mc::str(Int::log(k * 50 - 50, i)); }, [](const Int& i, int k) { return k == 2 && i >= 2; }},
        {"0 ** it", 1, [](Int& i, int) { return mc::str(Int::pow(0, i)); }, [](const Int& i, int) { return !i.is_negative(); }},
        {"it ** -1", 1, [](Int& i, int) { return mc::str(Int::pow(i, -1)); }, nz},
        {"= literal", int(std::size(lits)), [](Int& i, int k) { i = lits[k]; return mc::str(i); }, [](const Int&, int k) { return ok[k]; }},
        {">> literal", int(std::size(lits)), [](Int& i, int k) { std::istringstream t("x" + std::string(lits[k])); t >> i; return mc::str(i); }, never},
        {"+= literal", int(std::size(lits)), [](Int& i, int k) { i += lits[k]; return mc::str(i); }, [](const Int&, int k) { return ok[k]; }},
        {"random", 4, [](Int& i, int k) { static const int v[] = {-2, -100, INT_MIN, 0}; return mc::str(Int::random(v[k])); }, [](const Int&, int k) { return k == 3; }},
        {"to_integer<int>", 1, [](Int& i, int) { return n(i.to_integer<int>()); }, nullptr},
        {"+-*", 3, [](Int& i, int k) { k == 0 ? i += 99 : k == 1 ? i -= 99 : i *= -3; return mc::str(i); }},
        {"++ --", 2, [](Int& i, int k) { k ? ++i : --i; return mc::str(i); }},
        {"/ 7", 2, [](Int& i, int k) { k ? i /= 7 : i %= 7; return mc::str(i); }, [](const Int&, int) { return true; }}};
    s.ops.erase(std::find_if(s.ops.begin(), s.ops.end(), [](auto& o) { return o.name == "to_integer<int>"; }));
    return s;
}
Q q(const Fraction& f)
{
    return Q(f.numerator(), f.denominator());
}
Sys<Fraction> s_frac()
{
    Sys<Fraction> s;
    s.name = "Fraction";
    for (auto p : std::vector<std::pair<int, int>>{{0, 1}, {1, 1}, {-2, 3}, {INT_MAX, 2}, {INT_MIN, 1}, {1, INT_MAX}})
        s.states.push_back([p] { return Fraction(p.first, p.second); });
    s.show = sf;
    auto never = [](const Fraction&, int) { return false; };
    auto nz = [](const Fraction& f, int) { return f.numerator() != 0; };
    typedef Fraction F;
    static const F other[] = {F(0), F(1), F(-1), F(1, 2), F(INT_MAX), F(INT_MIN), F(-7, INT_MAX), F(INT_MAX, 3)};
    static const int no = std::size(other);
    auto rem = [](Q a, Q b) { return a - Q(trunc(a / b)) * b; };
    s.ops = {
        {"+=", no, [](F& f, int k) { f += other[k]; return sf(f); }, [](const F& f, int k) { return (q(f) + q(other[k])).fits(); }},
        {"-=", no, [](F& f, int k) { f -= other[k]; return sf(f); }, [](const F& f, int k) { return (q(f) - q(other[k])).fits(); }},
        {"*=", no, [](F& f, int k) { f *= other[k]; return sf(f); }, [](const F& f, int k) { return (q(f) * q(other[k])).fits(); }},
        {"/=", no, [](F& f, int k) { f /= other[k]; return sf(f); }, [](const F& f, int k) { return k != 0 && (q(f) / q(other[k])).fits(); }},
        {"%=", no, [](F& f, int k) { f %= other[k]; return sf(f); }, [rem](const F& f, int k) { return k != 0 && rem(q(f), q(other[k])).fits(); }},
        {"other /", no, [](F& f, int k) { return sf(other[k] / f); }, [](const F& f, int k) { return f.numerator() != 0 && (q(other[k]) / q(f)).fits(); }},
        {"other %", no, [](F& f, int k) { return sf(other[k] % f); }, [rem](const F& f, int k) { return f.numerator() != 0 && rem(q(other[k]), q(f)).fits(); }},
        {"/= itself", 1, [](F& f, int) { f /= f; return sf(f); }, nz},
        {"%= itself", 1, [](F& f, int) { f %= f; return sf(f); }, nz},
        {"*= itself", 1, [](F& f, int) { f *= f; return sf(f); }, [](const F& f, int) { return (q(f) * q(f)).fits(); }},
        {"++", 1, [](F& f, int) { ++f; return sf(f); }, [](const F& f, int) { return (q(f) + Q(1)).fits(); }},
        {"--", 1, [](F& f, int) { --f; return sf(f); }, [](const F& f, int) { return (q(f) - Q(1)).fits(); }},
        {"negated", 1, [](F& f, int) { f = -f; return sf(f); }, [](const F& f, int) { return (Q(0) - q(f)).fits(); }},
        {"= n/0", 3, [](F& f, int k) { f = F(k - 1, 0); return sf(f); }, never},
        {"= 1/INT_MIN", 1, [](F& f, int) { f = F(1, INT_MIN); return sf(f); }, never},
        {">> literal", 8, [](F& f, int k) { static const char* v[] = {"1/0 ", "x ", "1/x ", "1|2 ", "1/2z ", "/2 ", "", "-1/2 "}; std::istringstream t(v[k]); t >> f; return sf(f); }, [](const F&, int k) { return k == 7; }},
        {"= 1/3", 1, [](F& f, int) { f = F(1, 3); return sf(f); }}};
    return s;
}
Sys<Complex> s_cx()
{
    typedef Complex Z;
    Sys<Z> s;
    s.name = "Complex";
    for (auto p : std::vector<std::pair<double, double>>{{0, 0}, {1, 0}, {0, -2}, {1.5, 2}})
        s.states.push_back([p] { return Z(p.first, p.second); });
    s.show = [](const Z& z) { std::ostringstream o; o.precision(17); o << z.real() << "," << z.imag(); return o.str(); };
    auto never = [](const Z&, int) { return false; };
    auto nz = [](const Z& z, int) { return z.real() != 0 || z.imag() != 0; };
    auto sz = s.show;
    s.ops = {
        {"/= 0", 2, [=](Z& z, int k) { z /= k ? Z(0, -0.0) : Z(); return sz(z); }, never},
        {"/ 0", 1, [=](Z& z, int) { return sz(z / Z()); }, never},
        {"1 / it", 1, [=](Z& z, int) { return sz(Z(1) / z); }, nz},
        {"/= itself", 1, [=](Z& z, int) { z /= z; return sz(z); }, nz},
        {"0 ** it", 1, [=](Z& z, int) { return sz(Z::pow(0, z)); }, [](const Z& z, int) { return z.real() == 0 && z.imag() == 0; }},
        {"it ** -1", 2, [=](Z& z, int k) { return sz(Z::pow(z, k ? Z(-1) : Z(2, 1))); }, nz},
        {">> literal", 7, [=](Z& z, int k) { static const char* v[] = {"x ", "1+x ", "1+2 ", "1+2jx ", "1jj2 ", "", "1-2j "}; std::istringstream t(v[k]); t >> z; return sz(z); }, [](const Z&, int k) { return k == 6; }},
        {"+= -=", 2, [=](Z& z, int k) { k ? z += Z(1, 1) : z -= Z(1, 1); return sz(z); }},
        {"negated", 1, [=](Z& z, int) { z = -z; return sz(z); }}};
    return s;
}
} // namespace

MC_PART
{
#if PART == 0
    add<List<int>>(s_list<int>);
    add<List<std::string>>(s_list<std::string>);
#elif PART == 1
    add<Deque<int>>(s_deque<int>);
    add<Deque<std::string>>(s_deque<std::string>);
#elif PART == 2
    add<Set<int>>(s_set<int>);
    add<Set<std::string>>(s_set<std::string>);
#elif PART == 3
    add<Dict<int, int>>(s_dict<int, int>);
    add<Dict<std::string, std::string>>(s_dict<std::string, std::string>);
#elif PART == 4
    add<Str>(s_str);
#elif PART == 5
    add<Int>(s_int);
    add<Fraction>(s_frac);
    add<Complex>(s_cx);
#endif
}
