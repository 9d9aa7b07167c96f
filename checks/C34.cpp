// parts: 9
// C34 - const operations on shared objects and any operations on distinct objects never conflict.
// Two threads under the scheduler of tsanrt.cpp, which sees every memory access of the instrumented code. Every
// ordered pair of operations: on values both threads read, on objects of their own (copies of one value, so
// storage shared behind the scenes shows), and in processes in which nothing has run before.
#include "tsanrt.hpp"
#include "valfam.hpp"
#include <memory>
using namespace val;

namespace c34
{
struct World // values of one type: a and b are shared, each thread has an own p
{
    virtual ~World() {}
    virtual void go(int op, int who) = 0;         // run by a thread
    virtual std::string result(int op, int who) = 0; // afterwards
};
struct Kind_ // a type, without the type
{
    std::string name;
    int values = 0;
    std::vector<std::string> ops;
    std::function<bool(int value, int op)> ok;
    std::function<std::unique_ptr<World>(int value)> make;
    std::function<std::string(int value, int op)> want; // empty: as when it is run alone
    std::function<void(int value, int op, std::string* out)> alone; // everything in the thread
};

inline std::vector<std::shared_ptr<Kind_>>& all()
{
    static std::vector<std::shared_ptr<Kind_>> k;
    return k;
}
} // namespace c34
using namespace c34;

namespace
{
template <class Ty>
std::shared_ptr<Kind_> kind(const std::string& name, Ty&& built)
{
    typedef std::decay_t<Ty> Y;
    typedef typename Y::Value T;
    typedef typename Y::Model M;
    auto ty = std::make_shared<Y>(std::move(built));
    auto k = std::make_shared<Kind_>();
    const int nv = ty->make.size(), np = ty->prod.size(), nu = ty->un.size(), nb = ty->bin.size();
    k->name = name;
    k->values = nv;
    for (auto& p : ty->prod)
        k->ops.push_back(p.name + " (shared)");
    for (auto& p : ty->prod)
        k->ops.push_back(p.name + " (own)");
    for (auto& u : ty->un)
        k->ops.push_back("own " + u.name);
    for (auto& b : ty->bin)
        k->ops.push_back("own " + b.name + " (shared)");
    for (auto& b : ty->bin)
        k->ops.push_back("own " + b.name + " (itself)");
    for (const char* s : {"own = shared", "own destroyed", "own moved", "observers (shared)", "observers (own)", "own = other own value"})
        k->ops.push_back(s);
    k->ok = [=](int v, int op)
    {
        const M &a = ty->model[v], &b = ty->model[(v + 1) % nv];
        if (op < np)
            return !ty->prod[op].ok || ty->prod[op].ok(a, b);
        if ((op -= np) < np)
            return !ty->prod[op].ok || ty->prod[op].ok(a, a);
        if ((op -= np) < nu)
            return !ty->un[op].ok || ty->un[op].ok(a);
        if ((op -= nu) < nb)
            return !ty->bin[op].ok || ty->bin[op].ok(a, b);
        if ((op -= nb) < nb)
            return !ty->bin[op].ok || ty->bin[op].ok(a, a);
        return true;
    };
    k->want = [=](int v, int op) -> std::string
    {
        M p = ty->model[v], b = ty->model[(v + 1) % nv];
        if (op < 2 * np)
            return "";
        op -= 2 * np;
        if (op < nu)
            ty->un[op].g(p);
        else if ((op -= nu) < nb)
            ty->bin[op].g(p, b);
        else if ((op -= nb) < nb)
        {
            M q = p;
            ty->bin[op].g(p, q);
        }
        else if ((op -= nb) == 0)
            p = b;
        else if (op == 5)
            p = ty->model[0];
        return ty->text(p);
    };
    struct W_ : World
    {
        std::shared_ptr<Y> ty;
        std::optional<T> a, b, p[2], q[2];
        std::string out[2];
        void go(int op, int who) override
        {
            const int np = ty->prod.size(), nu = ty->un.size(), nb = ty->bin.size();
            const T &x = *a, &y = *b;
            T& own = *p[who];
            if (op < np)
                ty->prod[op].f(x, y, &out[who]);
            else if ((op -= np) < np)
                ty->prod[op].f(own, own, &out[who]);
            else if ((op -= np) < nu)
                ty->un[op].f(own);
            else if ((op -= nu) < nb)
                ty->bin[op].f(own, y);
            else if ((op -= nb) < nb)
                ty->bin[op].f(own, own);
            else if ((op -= nb) == 0)
                own = y;
            else if (op == 1)
            {
                p[who].reset();
                p[who].emplace(x);
            }
            else if (op == 2)
            {
                T t = std::move(own);
                own = std::move(t);
            }
            else if (op == 3)
                out[who] = ty->show(x);
            else if (op == 4)
                out[who] = ty->show(own);
            else
                own = std::as_const(*q[who]);
        }
        std::string result(int op, int who) override
        {
            return op < 2 * int(ty->prod.size()) ? out[who] : ty->show(*p[who]);
        }
    };
    k->make = [=](int v) -> std::unique_ptr<World>
    {
        auto w = std::make_unique<W_>();
        w->ty = ty;
        w->a.emplace(ty->make[v]());
        w->b.emplace(ty->make[(v + 1) % nv]());
        T other = ty->make[0]();
        for (int i = 0; i < 2; ++i)
        {
            w->p[i].emplace(*w->a);
            w->q[i].emplace(other);
        }
        return w;
    };
    k->alone = [=](int v, int op, std::string* out)
    {
        W_ w;
        w.ty = ty;
        w.a.emplace(ty->make[v]());
        w.b.emplace(ty->make[(v + 1) % nv]());
        w.p[0].emplace(*w.a);
        w.q[0].emplace(ty->make[0]());
        w.go(op, 0);
        *out = w.result(op, 0);
    };
    all().push_back(k);
    return k;
}

struct Job
{
    const Kind_* k;
    World* w; // null: everything is made by the thread
    int value, op, who;
    std::string out, error;
};
void run_job(void* x)
{
    Job& j = *static_cast<Job*>(x);
    try
    {
        if (j.w)
            j.w->go(j.op, j.who);
        else
            j.k->alone(j.value, j.op, &j.out);
    }
    catch (const std::exception& e)
    {
        j.error = e.what();
    }
}
// What a process has run before may change what is a synchronising operation (a guard of a static is taken once),
// so schedules are enumerated in new processes only.
int in_order(void*, int)
{
    return 0;
}
void nothing(void*)
{
}
int preemptions()
{
    return mc::G.tier ? 3 : 2;
}
// Returns what is wrong, or nothing.
std::string two(const Kind_& k0, int v0, int op0, const Kind_& k1, int v1, int op1, bool own_world, int preemptions, int (*choose)(void*, int), void* arg, rt::Result& r, const std::set<std::size_t>& offered = {}, int only = -1)
{
    std::string title = k0.name + " " + k0.ops[op0] + " || " + k1.name + " " + k1.ops[op1] + " (value " + std::to_string(v0) + (own_world ? ", made by the threads" : "") + ")";
    std::string res[2], err;
    rt::begin();
    {
        std::unique_ptr<World> w0, w1;
        if (!own_world)
        {
            w0 = k0.make(v0);
            if (&k0 != &k1)
                w1 = k1.make(v1);
        }
        World* second = w1 ? w1.get() : w0.get();
        Job a{&k0, w0.get(), v0, op0, 0, {}, {}}, b{&k1, second, v1, op1, 1, {}, {}};
        r = rt::run(only == 1 ? nothing : run_job, &a, only == 0 ? nothing : run_job, &b, 0, preemptions, choose, arg, offered);
        if (only >= 0)
        {
            rt::end();
            return "";
        }
        if (r.stuck)
        {
            std::fprintf(stderr, "%s: both threads wait for each other\n", title.c_str());
            std::abort();
        }
        if (r.race)
            err = title + ": " + r.what;
        else if (!a.error.empty() || !b.error.empty())
            err = title + ": exception " + a.error + " / " + b.error;
        else
        {
            res[0] = own_world ? a.out : w0->result(op0, 0);
            res[1] = own_world ? b.out : second->result(op1, 1);
        }
    }
    rt::end();
    if (!err.empty())
        return err;
    for (int i = 0; i < 2; ++i)
    {
        const Kind_& k = i ? k1 : k0;
        int v = i ? v1 : v0, op = i ? op1 : op0;
        std::string want = k.want(v, op);
        if (want.empty())
            k.alone(v, op, &want);
        if (res[i] != want)
            return title + ": thread " + std::to_string(i) + " got " + quote(res[i]) + " instead of " + quote(want);
    }
    return "";
}

void warm(Ctx& c, const Kind_& k)
{
    int v = c.choose(k.values), n = k.ops.size();
    int o0 = c.choose(n), o1 = c.choose(n);
    if (!k.ok(v, o0) || !k.ok(v, o1))
        return;
    LOG(c, k.name << " " << k.ops[o0] << " || " << k.ops[o1] << ", value " << v);
    rt::Result r;
    std::string e = two(k, v, o0, k, v, o1, false, 0, in_order, nullptr, r);
    CHECK(e.empty(), e);
    c.step(2);
    c.state(k.name + std::to_string(v) + "," + std::to_string(o0) + "," + std::to_string(o1));
}
// A new process for each execution: whatever the first call sets up, two first calls set up. The scheduler's
// questions are asked through a pipe, because the explorer is here.
struct Asker
{
    int to, from;
};
int ask_parent(void* x, int n)
{
    Asker& a = *static_cast<Asker*>(x);
    char q[2] = {1, char(n)}, r = 0;
    if (write(a.to, q, 2) != 2 || read(a.from, &r, 1) != 1)
        _exit(3);
    return r;
}
std::string in_new_process(Ctx& c, const std::function<std::string(Asker&)>& f)
{
    int up[2], down[2];
    if (pipe(up) || pipe(down))
        c.fail("pipe");
    pid_t pid = fork();
    if (pid == 0)
    {
        close(up[0]);
        close(down[1]);
        Asker a{up[1], down[0]};
        std::string e = f(a);
        e = std::string(1, '\2') + e.substr(0, 30000);
        std::size_t n = write(up[1], e.data(), e.size());
        (void)n;
        _exit(0);
    }
    close(up[1]);
    close(down[0]);
    std::string e;
    bool ended = false;
    char b[4096];
    auto finish = [&]
    {
        close(up[0]);
        close(down[1]);
        int st = 0;
        waitpid(pid, &st, 0);
        return st;
    };
    while (!ended && read(up[0], b, 1) == 1)
    {
        if (b[0] == 1)
        {
            char r = 0;
            try
            {
                if (read(up[0], b, 1) == 1)
                    r = char(c.choose(b[0]));
                if (write(down[1], &r, 1) != 1)
                    break;
            }
            catch (...)
            {
                kill(pid, SIGKILL);
                finish();
                throw;
            }
        }
        else
        {
            ended = true;
            for (ssize_t n; (n = read(up[0], b, sizeof b)) > 0;)
                e.append(b, n);
        }
    }
    int st = finish();
    CHECK(ended && WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process died, status " << st);
    return e;
}
struct Call
{
    const Kind_* k;
    int v, op;
};
// The synchronisation objects that one of the two calls uses when it is alone, in the place where it will run.
typedef std::pair<std::set<std::size_t>, std::set<std::size_t>> Used;
const Used& used(Ctx& c, const Call& c0, const Call& c1, int which, bool own)
{
    const Call& w = which ? c1 : c0;
    const Call& o = which ? c0 : c1;
    auto vkey = std::make_tuple(w.k, o.k, w.v, w.op, which, own);
    static std::map<decltype(vkey), Used> all;
    auto i = all.find(vkey);
    if (i != all.end())
        return i->second;
    std::string t = in_new_process(c, [&](Asker&)
                                   {
        rt::Result r;
        two(*c0.k, c0.v, c0.op, *c1.k, c1.v, c1.op, own, 0, in_order, nullptr, r, {}, which);
        std::ostringstream o;
        for (std::size_t x : r.read[which])
            o << "r " << x << " ";
        for (std::size_t x : r.written[which])
            o << "w " << x << " ";
        return o.str(); });
    Used u;
    std::istringstream s(t);
    char kind;
    std::size_t x;
    while (s >> kind >> x)
        (kind == 'r' ? u.first : u.second).insert(x);
    return all[vkey] = u;
}
void fresh(Ctx& c, const Call& c0, const Call& c1, bool own)
{
    const Used &a = used(c, c0, c1, 0, own), &b = used(c, c0, c1, 1, own);
    std::set<std::size_t> offered;
    for (std::size_t x : a.second)
        if (b.first.count(x) || b.second.count(x))
            offered.insert(x);
    for (std::size_t x : b.second)
        if (a.first.count(x) || a.second.count(x))
            offered.insert(x);
    std::string e = in_new_process(c, [&](Asker& q)
                                   { rt::Result r; return two(*c0.k, c0.v, c0.op, *c1.k, c1.v, c1.op, own, preemptions(), ask_parent, &q, r, offered); });
    CHECK(e.empty(), e);
}
void cold(Ctx& c, const Kind_& k)
{
    bool own = c.flip();
    int v = mc::G.tier ? c.choose(k.values) : k.values - 1, n = k.ops.size();
    int o0 = c.choose(n), o1 = c.choose(n);
    if (!k.ok(v, o0) || !k.ok(v, o1))
        return;
    LOG(c, k.name << " " << k.ops[o0] << " || " << k.ops[o1] << ", value " << v << ", in a new process");
    fresh(c, {&k, v, o0}, {&k, v, o1}, own);
    c.step(2);
    c.state(k.name + std::to_string(v) + "," + std::to_string(o0) + "," + std::to_string(o1) + (own ? "o" : "s"));
}
void mixed(Ctx& c, bool first_use)
{
    auto& ks = all();
    const Kind_& k0 = *ks[c.choose(ks.size())];
    const Kind_& k1 = *ks[c.choose(ks.size())];
    if (&k0 == &k1)
        return;
    int v0 = k0.values - 1, v1 = k1.values - 1;
    int o0 = c.choose(k0.ops.size()), o1 = c.choose(k1.ops.size());
    if (!k0.ok(v0, o0) || !k1.ok(v1, o1))
        return;
    LOG(c, k0.name << " " << k0.ops[o0] << " || " << k1.name << " " << k1.ops[o1]);
    if (first_use)
        fresh(c, {&k0, v0, o0}, {&k1, v1, o1}, true);
    else
    {
        rt::Result r;
        std::string e = two(k0, v0, o0, k1, v1, o1, false, 0, in_order, nullptr, r);
        CHECK(e.empty(), e);
    }
    c.step(2);
    c.state(k0.name + std::to_string(o0) + k1.name + std::to_string(o1) + (first_use ? "f" : ""));
}
template <class Ty>
void add(const std::string& name, Ty&& ty)
{
    auto k = kind(name, std::move(ty));
    mc::scenario(name, 16, [k](Ctx& c)
                 { warm(c, *k); });
    mc::scenario(name + ", first use", 32, [k](Ctx& c)
                 { cold(c, *k); });
}
} // namespace

MC_PART
{
#if PART == 0
    mc::scenario("operations of different types", 64, [](Ctx& c) { mixed(c, false); });
    if (mc::G.tier)
        mc::scenario("operations of different types, first use", 128, [](Ctx& c) { mixed(c, true); });
    auto t = t_int();
    typedef Int V;
    t.prod.push_back({"random", [](const Int&, const Int&, std::string* o) { Int r = Int::random(7); *o = std::to_string(r.digits()); }});
    add("Int", std::move(t));
#elif PART == 1
    add("Fraction", t_frac());
    add("Complex", t_cx());
#elif PART == 2
    add("Str", t_str());
#elif PART == 3
    add("List<int>", t_list<int>());
    add("Set<int>", t_set<int>());
#elif PART == 4
    add("List<string>", t_list<std::string>());
#elif PART == 5
    add("Deque<string>", t_deque<std::string>());
#elif PART == 6
    add("Set<string>", t_set<std::string>());
#elif PART == 7
    add("Dict<int, string>", t_dict<int, std::string>());
#elif PART == 8
    add("Tuple<string, int>", t_tuple<std::string, int>());
    add("List<List<string>>", t_nested());
#endif
}
