// parts: 8
// C31 - all types are values: copies are independent, aliasing is harmless.
// Two slots of one type; every history of construct / copy / move / assign / swap / mutate / combine operations,
// in lockstep with a model in which values cannot share anything.
#include "valfam.hpp"
using namespace val;

namespace
{
template <class Ty>
void run(Ctx& c, const Ty& ty, int depth)
{
    typedef typename Ty::Value T;
    typedef typename Ty::Model M;
    long live = mc::A.live, objs = mc::TS.live;
    {
        std::optional<T> s[2];
        M m[2];
        int seen = 0;
        bool any[2] = {false, false}; // content unspecified (moved-from tuple)
        const int n = ty.make.size(), both = c.choose(n * n);
        for (int i = 0; i < 2; ++i)
        {
            int k = i ? both / n : both % n;
            s[i].emplace(ty.make[k]());
            m[i] = ty.model[k];
        }
        std::string log = ty.text(m[0]) + " " + ty.text(m[1]);
        const int nb = ty.bin.size(), nu = ty.un.size(), np = ty.prod.size();
        for (int step = 0; step < depth; ++step)
        {
            int op = c.choose(9 + nb * 2 + nu); // both directions by choosing the target
            if (op == 0)
                break;
            int i = op == 5 ? 0 : c.choose(2), j = 1 - i;
            auto note = [&](const std::string& t)
            { log += "; s" + std::to_string(i) + " " + t; LOG(c, ty.name << ": " << log); };
            if (op == 1)
            {
                note("copy constructed from the other");
                s[i].emplace(std::as_const(*s[j]));
                m[i] = m[j];
                any[i] = any[j];
            }
            else if (op == 2)
            {
                note("= other");
                T& r = (*s[i] = std::as_const(*s[j]));
                CHECK(&r == &*s[i], "assignment returns another object");
                m[i] = m[j];
                any[i] = any[j];
            }
            else if (op == 3)
            {
                note("move constructed from the other");
                s[i].emplace(std::move(*s[j]));
                m[i] = m[j];
                any[i] = any[j];
                m[j] = ty.none;
                any[j] = !ty.moved_known;
            }
            else if (op == 4)
            {
                note("= move(other)");
                T& r = (*s[i] = std::move(*s[j]));
                CHECK(&r == &*s[i], "move assignment returns another object");
                m[i] = m[j];
                any[i] = any[j];
                m[j] = ty.none;
                any[j] = !ty.moved_known;
            }
            else if (op == 5)
            {
                note("swapped with s1");
                std::swap(*s[0], *s[1]);
                std::swap(m[0], m[1]);
                std::swap(any[0], any[1]);
            }
            else if (op == 6)
            {
                note("= itself");
                const T& self = *s[i];
                *s[i] = self;
            }
            else if (op == 7)
            {
                int k = c.choose(ty.make.size());
                note("= " + ty.text(ty.model[k]));
                *s[i] = ty.make[k]();
                m[i] = ty.model[k];
                any[i] = false;
            }
            else if (op == 8)
            {
                if (np == 0 || any[0] || any[1] || step > 1 || seen++)
                    return; // once, and followed by something where that is possible
                bool both_ways = c.flip();
                note("every operation that returns a value");
                for (auto& p : ty.prod)
                {
                    int o = both_ways ? i : j;
                    if (!p.ok || p.ok(m[i], m[o]))
                        p.f(*s[i], *s[o], nullptr);
                }
            }
            else if (op < 9 + nb * 2)
            {
                auto& b = ty.bin[(op - 9) / 2];
                int o = (op - 9) % 2 ? i : j; // itself, or the other
                if (any[i] || any[o] || (b.ok && !b.ok(m[i], m[o])))
                    return;
                note(b.name + (o == i ? " itself" : " other"));
                M before = m[o];
                b.f(*s[i], *s[o]);
                b.g(m[i], before);
            }
            else
            {
                auto& u = ty.un[op - 9 - nb * 2];
                if (any[i] || (u.ok && !u.ok(m[i])))
                    return;
                note(u.name);
                u.f(*s[i]);
                u.g(m[i]);
            }
            c.step();
        }
        // every prefix of a history is a history of its own, so the end is the only place to look
        for (int x = 0; x < 2; ++x)
        {
            if (any[x])
                continue;
            std::string got = ty.show(*s[x]), want = ty.text(m[x]);
            CHECK(got == want, ty.name << " " << log << ": s" << x << " is " << got << ", expected " << want);
            CHECK(*s[x] == *s[x], ty.name << " " << log << ": s" << x << " differs from itself");
        }
        if (!any[0] && !any[1])
        {
            bool eq = ty.text(m[0]) == ty.text(m[1]);
            CHECK((*s[0] == *s[1]) == eq && (*s[1] == *s[0]) == eq, ty.name << " " << log << ": equality of the two is " << !eq);
        }
        c.state(ty.name + ty.text(m[0]) + "|" + ty.text(m[1]) + (any[0] ? "x" : "") + (any[1] ? "y" : ""));
    }
    CHECK(mc::TS.live == objs, ty.name << ": " << mc::TS.live - objs << " elements alive after the objects are gone");
    CHECK_LEAK(mc::A.live == live, ty.name << ": " << mc::A.live - live << " blocks leaked");
}
template <class Ty>
void add(const std::string& name, std::function<Ty()> build, int quick, int thorough)
{
    auto ty = std::make_shared<Ty>(build());
    ty->name = name;
    int depth = mc::G.tier ? thorough : quick;
    mc::scenario(name, 16, [ty, depth](Ctx& c)
                 { run(c, *ty, depth); });
}

} // namespace

MC_PART
{
#if PART == 0
    add<TInt>("Int", t_int, 3, 4);
    add<Type<Set<Tracked>, MSet>>("Set<tracked>", t_set<Tracked>, 2, 3);
#elif PART == 1
    add<TFr>("Fraction", t_frac, 3, 4);
    add<Type<Set<int>, MSet>>("Set<int>", t_set<int>, 3, 4);
#elif PART == 2
    add<TCx>("Complex", t_cx, 3, 4);
    add<Type<Dict<int, std::string>, MMap>>("Dict<int, string>", t_dict<int, std::string>, 2, 3);
#elif PART == 3
    add<TStr>("Str", t_str, 3, 4);
    add<Type<Deque<int>, Seq>>("Deque<int>", t_deque<int>, 3, 4);
#elif PART == 4
    add<Type<List<int>, Seq>>("List<int>", t_list<int>, 3, 4);
    add<Type<Dict<Tracked, Tracked>, MMap>>("Dict<tracked, tracked>", t_dict<Tracked, Tracked>, 2, 3);
#elif PART == 5
    add<Type<List<std::string>, Seq>>("List<string>", t_list<std::string>, 2, 3);
    add<Type<Deque<Tracked>, Seq>>("Deque<tracked>", t_deque<Tracked>, 2, 3);
#elif PART == 6
    add<Type<List<Tracked>, Seq>>("List<tracked>", t_list<Tracked>, 2, 3);
    add<Type<Tuple<std::string, int>, Seq>>("Tuple<string, int>", t_tuple<std::string, int>, 4, 5);
#elif PART == 7
    add<Type<Tuple<Tracked, Tracked>, Seq>>("Tuple<tracked, tracked>", t_tuple<Tracked, Tracked>, 3, 4);
    add<Type<List<List<std::string>>, Nest>>("List<List<string>>", t_nested, 3, 4);
#endif
}
