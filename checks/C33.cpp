// parts: 8
// C33 - failed allocations and failed element copies leave values valid.
// Every operation of the catalogue on every pair of its values; every allocation of it fails once, and every copy
// of an element fails once. Thorough: a second faulty operation follows the first.
#include "valfam.hpp"
#include <unordered_map>
using namespace val;

namespace
{
template <class T>
concept Seqlike = requires(const T& t) { t.begin(); t.end(); };

// A new object with the contents that the observers of v report.
template <class T>
bool same_as_rebuilt(const T& v)
{
    if constexpr (std::is_same_v<T, Int>)
    {
        Int w{mc::str(v).c_str()};
        return w == v && v == w && (w <=> v) == 0 && w.digits() == v.digits() && w.is_zero() == v.is_zero() && w.is_negative() == v.is_negative() && w.is_even() == v.is_even() && v - w == 0 && mc::str(v + 1) == mc::str(w + 1);
    }
    else if constexpr (std::is_same_v<T, Str>)
    {
        std::string s(v.data(), v.size());
        Str w(s);
        return w == v && v == w && v.data()[v.size()] == 0;
    }
    else if constexpr (Seqlike<T>)
    {
        T w(v.begin(), v.end());
        return w == v && v == w && w.size() == v.size() && std::distance(v.begin(), v.end()) == v.size();
    }
    else
    {
        T w(v);
        return w == v && v == w;
    }
}

// The model of what v shows.
inline Ref read(const Int& v) { return Ref(mc::str(v)); }
inline Q read(const Fraction& v)
{
    std::string s = mc::str(v);
    auto k = s.find('/');
    return k == s.npos ? Q(std::stoi(s)) : Q(std::stoi(s), std::stoi(s.substr(k + 1)));
}
inline Z read(const Complex& v) { return Z{v.real(), v.imag()}; }
inline std::string read(const Str& v) { return std::string(v.data(), v.size()); }
template <class E>
Seq read(const List<E>& l) { return keys(l); }
template <class E>
Seq read(const Deque<E>& l) { return keys(l); }
template <class E>
MSet read(const Set<E>& l)
{
    Seq s = keys(l);
    return MSet(s.begin(), s.end());
}
template <class K, class X>
MMap read(const Dict<K, X>& d)
{
    MMap m;
    for (auto& [k, v] : d)
        m[El<K>::key(k)] = El<X>::key(v);
    return m;
}
template <class A, class B>
Seq read(const Tuple<A, B>& t) { return {El<A>::key(t.template get<0>()), El<B>::key(t.template get<1>())}; }
inline Nest read(const List<List<std::string>>& l)
{
    Nest n;
    for (auto& s : l)
        n.push_back(keys(s));
    return n;
}

enum Kind
{
    ALLOC,
    COPY
};
struct Fault
{
    Kind kind;
    void arm(long at) const { kind == ALLOC ? mc::A.arm(at) : mc::TS.arm(at); }
    long count() const { return kind == ALLOC ? mc::A.count : mc::TS.copies; }
    bool fired() const { return kind == ALLOC ? mc::A.failed : mc::TS.failed; }
    static void off()
    {
        mc::A.disarm();
        mc::TS.disarm();
    }
};

template <class Ty>
void run(Ctx& c, const Ty& ty, int depth)
{
    typedef typename Ty::Value T;
    typedef typename Ty::Model M;
    constexpr bool tracked = requires(T t) { { *t.begin() } -> std::convertible_to<const Tracked&>; } || requires(T t) { { t.begin()->first } -> std::convertible_to<const Tracked&>; } || std::is_same_v<T, Tuple<Tracked, Tracked>>;
    const int nb = ty.bin.size(), nu = ty.un.size(), np = ty.prod.size(), n = ty.make.size();
    long live = mc::A.live, objs = mc::TS.live;
    {
        const int i0 = c.choose(n), j0 = c.choose(n);
        T a = ty.make[i0](), b = ty.make[j0]();
        M ma = ty.model[i0], mb = ty.model[j0];
        std::string log = ty.text(ma) + " " + ty.text(mb);
        // the assignments, then the catalogue; bin also with both operands the same object
        std::vector<std::function<void(T&, T&)>> past;
        for (int step = 0; step < depth; ++step)
        {
            if (step && c.flip())
                break;
            const int op = c.choose(2 + nu + 2 * nb + 2 * np);
            std::string name;
            std::function<void(T&, const T&, std::string*)> f;
            M want = ma;
            bool self = false, mutates = true;
            int q = op;
            if (q < 2)
            {
                self = q == 1;
                name = self ? "= itself" : "= other";
                f = [](T& x, const T& y, std::string* o)
                { x = y; };
                want = self ? ma : mb;
            }
            else if ((q -= 2) < nu)
            {
                auto& u = ty.un[q];
                if (u.ok && !u.ok(ma))
                    return;
                name = u.name;
                f = [&u](T& x, const T&, std::string*)
                { u.f(x); };
                u.g(want);
            }
            else if ((q -= nu) < 2 * nb)
            {
                auto& t = ty.bin[q / 2];
                self = q % 2;
                if (t.ok && !t.ok(ma, self ? ma : mb))
                    return;
                name = t.name + (self ? " itself" : " other");
                f = [&t](T& x, const T& y, std::string*)
                { t.f(x, y); };
                M other = self ? ma : mb; // the model's operand must not be the target
                if (self)
                    t.g(want, other);
                else
                    t.g(want, mb);
            }
            else
            {
                q -= 2 * nb;
                auto& p = ty.prod[q / 2];
                self = q % 2;
                mutates = false;
                if ((p.ok && !p.ok(ma, self ? ma : mb)) || p.name == "print") // a stream reports failures in its state
                    return;
                name = p.name + (self ? " itself" : " other");
                f = [&p](T& x, const T& y, std::string* o)
                { p.f(x, y, o); };
            }
            Fault ft{tracked && c.flip() ? COPY : ALLOC};
            // how often could it fail?
            static std::unordered_map<std::uint64_t, long> known; // the same on every visit to this point
            long count;
            std::string full;
            const std::uint64_t here = mc::hash_bytes(c.slot->path, c.pos * sizeof c.slot->path[0]);
            if (auto it = known.find(here); it != known.end())
                count = it->second;
            else
            {
                T x = ty.make[i0](), y = ty.make[j0](); // what is made on first use is made now
                for (auto& p : past)
                    p(x, y);
                f(x, self ? x : y, nullptr);
                count = -1;
            }
            {
                T x = ty.make[i0](), y = ty.make[j0](); // not copies of a and b: the capacity matters
                for (auto& p : past)
                    p(x, y);
                T& z = self ? x : y;
                ft.arm(LONG_MAX);
                f(x, z, nullptr);
                if (count < 0)
                    known[here] = count = ft.count();
                ft.off();
                if (!mutates)
                    f(x, z, &full);
            }
            if (count == 0)
                return; // nothing to fail
            const long at = c.choose(count);
            log += "; " + name + " with " + (ft.kind == ALLOC ? "allocation " : "element copy ") + std::to_string(at + 1) + " of " + std::to_string(count) + " failing";
            LOG(c, ty.name << ": " << log);
            std::string before_a = ty.show(a), before_b = ty.show(b), got;
            T& other = self ? a : b;
            enum
            {
                OK,
                ALLOC_FAILED,
                COPY_FAILED,
                ELSE
            } out = OK;
            std::string what;
            long la = mc::A.live, lo = mc::TS.live;
            ft.arm(at);
            try
            {
                f(a, other, &got);
                ft.off();
            }
            catch (const std::bad_alloc&)
            {
                ft.off();
                out = ALLOC_FAILED;
            }
            catch (const std::logic_error& e)
            {
                ft.off();
                out = std::string(e.what()) == "element copy failed" ? COPY_FAILED : ELSE;
                what = e.what();
            }
            catch (const std::exception& e)
            {
                ft.off();
                out = ELSE;
                what = e.what();
            }
            const bool reads = name.find("read") != name.npos; // a stream reports failures in its state, so text may be missing
            CHECK(out != ELSE || reads, ty.name << " " << log << ": reported as another error, " << quote(what));
            CHECK(out == OK || reads || out == (ft.kind == ALLOC ? ALLOC_FAILED : COPY_FAILED), ty.name << " " << log << ": another exception");
            std::string after_a = ty.show(a), after_b = ty.show(b);
            if (!self || !mutates)
                CHECK(after_b == before_b, ty.name << " " << log << ": the other operand was " << before_b << ", is " << after_b);
            if (out == OK && mutates) // it found another way
                CHECK(after_a == ty.text(want), ty.name << " " << log << ": no exception, and the value is " << after_a << " instead of " << ty.text(want));
            if (out == OK && !mutates)
                CHECK(got == full, ty.name << " " << log << ": no exception, and the result is " << quote(got) << " instead of " << quote(full));
            if (!mutates)
            {
                CHECK(after_a == before_a, ty.name << " " << log << ": the operand was " << before_a << ", is " << after_a);
                got = std::string();
            }
            CHECK(same_as_rebuilt(a), ty.name << " " << log << ": the object shows " << after_a << " but is not equal to a new object with these contents");
            {
                T copy = a;
                CHECK(ty.show(copy) == after_a && copy == a && a == copy, ty.name << " " << log << ": a copy of the object differs from it");
                T moved = std::move(copy);
                CHECK(ty.show(moved) == after_a, ty.name << " " << log << ": the object changes when moved");
                copy = moved;
                CHECK(ty.show(copy) == after_a, ty.name << " " << log << ": the object changes when assigned");
            }
            c.step();
            c.state(ty.name + log);
            if (mutates)
                ma = read(a);
            if (step + 1 < depth)
                past.push_back([=](T& x, T& y)
                               {
                    ft.arm(at);
                    try { f(x, self ? x : y, nullptr); }
                    catch (const std::exception&) {}
                    ft.off(); });
        }
        // it can be assigned to, and works from there
        a = b;
        ma = mb;
        CHECK(ty.show(a) == ty.text(ma), ty.name << " " << log << "; assigned to, it is " << ty.show(a) << " instead of " << ty.text(ma));
        for (auto& u : ty.un)
            if (!u.ok || u.ok(ma))
            {
                u.f(a);
                u.g(ma);
                CHECK(ty.show(a) == ty.text(ma), ty.name << " " << log << "; = other; " << u.name << " gives " << ty.show(a) << " instead of " << ty.text(ma));
            }
    }
    CHECK(mc::TS.live == objs, ty.name << ": " << mc::TS.live - objs << " elements alive after the objects are gone");
    CHECK_LEAK(mc::A.live == live, ty.name << ": " << mc::A.live - live << " blocks leaked");
}
template <class Ty>
void add(const std::string& name, std::function<Ty()> build, int quick, int thorough)
{
    auto ty = std::make_shared<Ty>(build());
    ty->name = name;
    int depth = mc::G.tier ? thorough : quick;
    mc::scenario(name, 16, [ty, depth](Ctx& c)
                 { run(c, *ty, depth); });
}

} // namespace

MC_PART
{
#if PART == 0
    add<TInt>("Int", t_int, 1, 2);
    add<Type<Set<Tracked>, MSet>>("Set<tracked>", t_set<Tracked>, 2, 2);
#elif PART == 1
    add<TFr>("Fraction", t_frac, 2, 3);
    add<Type<Set<int>, MSet>>("Set<int>", t_set<int>, 2, 3);
#elif PART == 2
    add<TCx>("Complex", t_cx, 2, 3);
    add<Type<Dict<int, std::string>, MMap>>("Dict<int, string>", t_dict<int, std::string>, 2, 2);
#elif PART == 3
    add<TStr>("Str", t_str, 1, 2);
    add<Type<Deque<int>, Seq>>("Deque<int>", t_deque<int>, 2, 3);
#elif PART == 4
    add<Type<List<int>, Seq>>("List<int>", t_list<int>, 2, 2);
    add<Type<Dict<Tracked, Tracked>, MMap>>("Dict<tracked, tracked>", t_dict<Tracked, Tracked>, 2, 2);
#elif PART == 5
    add<Type<List<std::string>, Seq>>("List<string>", t_list<std::string>, 1, 2);
    add<Type<Deque<Tracked>, Seq>>("Deque<tracked>", t_deque<Tracked>, 2, 2);
#elif PART == 6
    add<Type<List<Tracked>, Seq>>("List<tracked>", t_list<Tracked>, 1, 2);
    add<Type<Tuple<std::string, int>, Seq>>("Tuple<string, int>", t_tuple<std::string, int>, 2, 3);
#elif PART == 7
    add<Type<Tuple<Tracked, Tracked>, Seq>>("Tuple<tracked, tracked>", t_tuple<Tracked, Tracked>, 2, 3);
    add<Type<List<List<std::string>>, Nest>>("List<List<string>>", t_nested, 2, 2);
#endif
}
