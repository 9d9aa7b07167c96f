// tsanrt.cpp - the harness's own runtime for code compiled with -fsanitize=thread.
//
// The compiler reports every memory access of the instrumented code (the library, the standard headers and the
// harness) by calls to __tsan_*. This runtime runs two threads one at a time under a scheduler, and decides by
// vector clocks whether two accesses to one byte, one of them a write, are unordered. Every synchronising operation
// (atomics, mutexes, guards of local statics, once flags) is a scheduling point, so exploring all the schedules
// over these points covers every interleaving: between two of them a thread's accesses either are independent of
// everything the other thread does, or a race is reported.
//
// Compiled without instrumentation.
#include "tsanrt.hpp"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start[], _end[];

namespace rt
{
namespace
{
typedef std::uintptr_t W;
constexpr int N = 2;

// ---- the arena -------------------------------------------------------------------------------------------
constexpr std::size_t ARENA = 1ull << 30;
char* arena = nullptr;
std::size_t used = 0, base = 0; // what lies below base outlived its execution (statics, caches) and stays
long live = 0;                  // blocks above base
bool in_scope = false;
struct Head
{
    std::size_t size;
    int owner; // -1: before the threads
    int pad;
};

// ---- shadow memory: for every byte, the clock of each thread's last read and write -------------------------
struct Cell
{
    W granule;
    std::uint32_t gen;
    std::uint32_t r[N][8], w[N][8];
    void* pc[N][2];
};
constexpr std::size_t CELLS = 1u << 17;
Cell* cells = nullptr;
std::uint32_t gen = 0;
std::size_t filled = 0;

struct Clock
{
    std::uint32_t c[N] = {0, 0};
    void join(const Clock& o)
    {
        for (int i = 0; i < N; ++i)
            c[i] = std::max(c[i], o.c[i]);
    }
};
struct Thread
{
    pthread_t id;
    sem_t go;
    W stack_lo = 0, stack_hi = 0;
    Clock vc;
    void (*f)(void*) = nullptr;
    void* arg = nullptr;
    bool done = true, blocked = false;
    const void* waits = nullptr;
};
Thread th[N];
sem_t back;
pid_t pid = 0;
Result* res = nullptr;
std::unordered_map<W, Clock>* sync_clock = nullptr;

thread_local int me = -1;        // which thread
thread_local bool rec = false;   // record the accesses
thread_local int off_depth = 0;  // inside the runtime

struct Quiet
{
    bool was;
    Quiet()
        : was(rec) { rec = false; }
    ~Quiet() { rec = was; }
};

std::string symbol(void* pc)
{
    Dl_info d;
    if (pc && dladdr(pc, &d) && d.dli_sname)
    {
        int st = 0;
        char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        std::string s = st == 0 && n ? n : d.dli_sname;
        std::free(n);
        return s.substr(0, 160);
    }
    return "?";
}
std::string region(W a)
{
    char b[160];
    if (arena && a >= W(arena) && a < W(arena) + used)
    {
        // find the block
        for (W p = W(arena); p < W(arena) + used;)
        {
            Head* h = reinterpret_cast<Head*>(p);
            W q = p + sizeof(Head);
            if (a < q + h->size)
            {
                std::snprintf(b, sizeof b, "byte %ld of a block of %zu bytes allocated %s", long(a - q), h->size, h->owner < 0 ? "before" : h->owner ? "by thread 1" : "by thread 0");
                return b;
            }
            p = q + (h->size + 15) / 16 * 16;
        }
    }
    if (a >= W(__data_start) && a < W(_end))
        return "static storage";
    for (int i = 0; i < N; ++i)
        if (a >= th[i].stack_lo && a < th[i].stack_hi)
            return "the stack of a thread";
    return "memory";
}
void report(W a, bool w, void* pc, int other, bool ow, void* opc)
{
    if (!res || res->race)
        return;
    Quiet q;
    res->race = true;
    res->what = "thread " + std::to_string(me) + (w ? " writes" : " reads") + " in " + symbol(pc) + " what thread " + std::to_string(other) + (ow ? " writes" : " reads") + " in " + symbol(opc) + ", and nothing orders the two: " + region(a);
}
Cell& cell(W g)
{
    std::size_t i = (g * 0x9E3779B97F4A7C15ull) >> 47;
    for (;; i = (i + 1) % CELLS)
    {
        Cell& c = cells[i];
        if (c.gen != gen)
        {
            if (++filled > CELLS * 3 / 4)
            {
                std::fprintf(stderr, "shadow memory full\n");
                std::abort();
            }
            std::memset(&c, 0, sizeof c);
            c.gen = gen;
            c.granule = g;
            return c;
        }
        if (c.granule == g)
            return c;
    }
}
void access(const void* p, std::size_t n, bool w, void* pc)
{
    if (!rec)
        return;
    W a = W(p);
    Thread& t = th[me];
    if (a >= t.stack_lo && a < t.stack_hi)
        return;
    res->accesses++;
    const int o = 1 - me;
    for (; n;)
    {
        Cell& c = cell(a >> 3);
        int from = a & 7, to = int(std::min<std::size_t>(8, from + n));
        for (int k = from; k < to; ++k)
        {
            if (c.w[o][k] > t.vc.c[o])
                report(a + (k - from), w, pc, o, true, c.pc[o][1]);
            if (w && c.r[o][k] > t.vc.c[o])
                report(a + (k - from), w, pc, o, false, c.pc[o][0]);
            (w ? c.w : c.r)[me][k] = t.vc.c[me];
        }
        c.pc[me][w] = pc;
        a += to - from;
        n -= to - from;
    }
}

// ---- scheduling ------------------------------------------------------------------------------------------
void yield_(bool blocked, const void* waits = nullptr)
{
    Quiet q;
    th[me].blocked = blocked;
    th[me].waits = waits;
    sem_post(&back);
    while (sem_wait(&th[me].go) != 0)
        ;
}
const std::set<std::size_t>* offered = nullptr;
int streak = 0;
void point(const volatile void* p, bool writes)
{
    if (!rec)
        return;
    Quiet q;
    res->sync_ops++;
    const W a = W(p);
    if ((a >= W(__data_start) && a < W(_end)) || (a >= W(arena) && a < W(arena) + used)) // not what the C++ library's binary keeps for itself
        (writes ? res->written : res->read)[me].insert(a);
    // a thread that goes on for that long waits for the other in a loop
    if (offered->count(W(p)) || ++streak > 3000)
        yield_(false);
}
void wake(const void* what)
{
    for (auto& t : th)
        if (t.blocked && t.waits == what)
            t.blocked = false;
}
void acquire(const void* p)
{
    if (!rec)
        return;
    Quiet q;
    auto i = sync_clock->find(W(p));
    if (i != sync_clock->end())
        th[me].vc.join(i->second);
}
void release(const void* p, bool join)
{
    if (!rec)
        return;
    Quiet q;
    Clock& c = (*sync_clock)[W(p)];
    if (join)
        c.join(th[me].vc);
    else
        c = th[me].vc;
    th[me].vc.c[me]++;
}
void* body(void* a)
{
    me = int(W(a));
    Thread& t = th[me];
    pthread_attr_t at;
    void* lo;
    size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    t.stack_lo = W(lo);
    t.stack_hi = W(lo) + sz;
    sem_post(&back);
    for (;;)
    {
        while (sem_wait(&t.go) != 0)
            ;
        rec = true;
        t.f(t.arg);
        rec = false;
        t.done = true;
        sem_post(&back);
    }
    return nullptr;
}
void wait_back()
{
    while (sem_wait(&back) != 0)
        ;
}
void init()
{
    if (!arena)
    {
        arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        cells = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        sync_clock = new std::unordered_map<W, Clock>;
    }
    if (pid != getpid()) // the threads did not survive the fork
    {
        pid = getpid();
        sem_init(&back, 0, 0);
        for (int i = 0; i < N; ++i)
        {
            th[i].~Thread();
            new (&th[i]) Thread();
            sem_init(&th[i].go, 0, 0);
            pthread_create(&th[i].id, nullptr, body, reinterpret_cast<void*>(W(i)));
            wait_back();
        }
    }
}
} // namespace

void begin()
{
    init();
    if (live == 0)
        used = base;
    else
        base = used;
    live = 0;
    in_scope = true;
}
void end()
{
    in_scope = false;
}
Result run(void (*f0)(void*), void* a0, void (*f1)(void*), void* a1, int first, int preemptions, int (*choose)(void*, int), void* arg, const std::set<std::size_t>& offer)
{
    Result r;
    offered = &offer;
    gen++;
    filled = 0;
    sync_clock->clear();
    res = &r;
    th[0].f = f0;
    th[0].arg = a0;
    th[1].f = f1;
    th[1].arg = a1;
    for (int i = 0; i < N; ++i)
    {
        th[i].vc = Clock();
        th[i].vc.c[i] = 1;
        th[i].done = th[i].blocked = false;
    }
    int cur = first, asked = 0;
    streak = 0;
    while (!th[0].done || !th[1].done)
    {
        const int o = 1 - cur;
        if (th[cur].done || th[cur].blocked)
        {
            if (th[o].done || th[o].blocked)
            {
                r.stuck = true; // the threads are left where they are; the process cannot go on
                break;
            }
            cur = o;
            streak = 0;
        }
        sem_post(&th[cur].go);
        wait_back();
        const int other = 1 - cur;
        if (!th[cur].done && !th[cur].blocked && !th[other].done && !th[other].blocked)
        {
            bool sw = false;
            if (streak > 3000)
                sw = true;
            else if (r.switches < preemptions && asked++ < 16)
            {
                bool s = in_scope;
                in_scope = false;
                sw = choose(arg, 2) == 1;
                in_scope = s;
                r.switches += sw;
            }
            if (sw)
            {
                cur = other;
                streak = 0;
            }
        }
    }
    res = nullptr;
    return r;
}
} // namespace rt

using namespace rt;
#define PC __builtin_return_address(0)

// ---- allocation ------------------------------------------------------------------------------------------
static void* get(std::size_t n)
{
    if (!in_scope)
    {
        void* p = std::malloc(n ? n : 1);
        if (!p)
            throw std::bad_alloc();
        return p;
    }
    std::size_t need = sizeof(Head) + (n + 15) / 16 * 16;
    if (used + need > ARENA)
        throw std::bad_alloc();
    Head* h = reinterpret_cast<Head*>(arena + used);
    used += need;
    h->size = n;
    h->owner = rec ? me : -1;
    live++;
    return h + 1;
}
static void put(void* p, void* pc)
{
    if (!p)
        return;
    if (arena && W(p) >= W(arena) && W(p) < W(arena) + ARENA)
    {
        access(p, (static_cast<Head*>(p) - 1)->size, true, pc); // freeing conflicts with every use
        if (W(p) >= W(arena) + base)
            live--;
        return;
    }
    std::free(p);
}
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p, PC); }
void operator delete[](void* p) noexcept { put(p, PC); }
void operator delete(void* p, std::size_t) noexcept { put(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { put(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p, PC); }

extern "C"
{
    // ---- plain accesses
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define ACC(n)                                                        \
    void __tsan_read##n(void* p) { access(p, n, false, PC); }           \
    void __tsan_write##n(void* p) { access(p, n, true, PC); }           \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }  \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }  \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
    ACC(1)
    ACC(2)
    ACC(4)
    ACC(8)
    ACC(16)
    void __tsan_read_range(void* p, std::size_t n) { access(p, n, false, PC); }
    void __tsan_write_range(void* p, std::size_t n) { access(p, n, true, PC); }
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v)
            access(p, 8, true, PC);
    }
    void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

    // ---- what the C library does with our memory (linked with --wrap)
    void* __real_memcpy(void*, const void*, std::size_t);
    void* __real_memmove(void*, const void*, std::size_t);
    void* __real_memset(void*, int, std::size_t);
    int __real_memcmp(const void*, const void*, std::size_t);
    void* __real_memchr(const void*, int, std::size_t);
    std::size_t __real_strlen(const char*);
    void* __wrap_memcpy(void* d, const void* s, std::size_t n)
    {
        access(s, n, false, PC);
        access(d, n, true, PC);
        return __real_memcpy(d, s, n);
    }
    void* __wrap_memmove(void* d, const void* s, std::size_t n)
    {
        access(s, n, false, PC);
        access(d, n, true, PC);
        return __real_memmove(d, s, n);
    }
    void* __wrap_memset(void* d, int c, std::size_t n)
    {
        access(d, n, true, PC);
        return __real_memset(d, c, n);
    }
    int __wrap_memcmp(const void* a, const void* b, std::size_t n)
    {
        access(a, n, false, PC);
        access(b, n, false, PC);
        return __real_memcmp(a, b, n);
    }
    void* __wrap_memchr(const void* a, int c, std::size_t n)
    {
        access(a, n, false, PC);
        return __real_memchr(a, c, n);
    }
    std::size_t __wrap_strlen(const char* s)
    {
        std::size_t n = __real_strlen(s);
        access(s, n + 1, false, PC);
        return n;
    }
    // functions with state of their own: a call is a write to it
    static char of_strtok, of_rand, of_time, of_locale, of_drand;
    char* __real_strtok(char*, const char*);
    char* __wrap_strtok(char* a, const char* b)
    {
        access(&of_strtok, 1, true, PC);
        return __real_strtok(a, b);
    }
    int __real_rand();
    int __wrap_rand()
    {
        access(&of_rand, 1, true, PC);
        return __real_rand();
    }
    void __real_srand(unsigned);
    void __wrap_srand(unsigned s)
    {
        access(&of_rand, 1, true, PC);
        __real_srand(s);
    }
    double __real_drand48();
    double __wrap_drand48()
    {
        access(&of_drand, 1, true, PC);
        return __real_drand48();
    }
    char* __real_setlocale(int, const char*);
    char* __wrap_setlocale(int c, const char* l)
    {
        access(&of_locale, 1, l != nullptr, PC);
        return __real_setlocale(c, l);
    }
    struct tm;
    struct tm* __real_localtime(const long*);
    struct tm* __wrap_localtime(const long* t)
    {
        access(&of_time, 1, true, PC);
        return __real_localtime(t);
    }
    struct tm* __real_gmtime(const long*);
    struct tm* __wrap_gmtime(const long* t)
    {
        access(&of_time, 1, true, PC);
        return __real_gmtime(t);
    }

    // ---- atomics
    typedef unsigned char a8;
    typedef unsigned short a16;
    typedef unsigned a32;
    typedef unsigned long a64;
    static void after_load(const volatile void* p, int mo)
    {
        if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
            acquire(const_cast<const void*>(p));
    }
    static void before_store(const volatile void* p, int mo, bool rmw)
    {
        if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)
            release(const_cast<const void*>(p), rmw);
        else if (!rmw && rec)
        {
            Quiet q;
            sync_clock->erase(W(p)); // a relaxed store ends the release sequence
        }
    }
#define ATOM(n)                                                                                       \
    a##n __tsan_atomic##n##_load(const volatile a##n* p, int mo)                                        \
    {                                                                                                   \
        point(p, false);                                                                                \
        a##n v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                  \
        after_load(p, mo);                                                                              \
        return v;                                                                                       \
    }                                                                                                   \
    void __tsan_atomic##n##_store(volatile a##n* p, a##n v, int mo)                                     \
    {                                                                                                   \
        point(p, true);                                                                                 \
        before_store(p, mo, false);                                                                     \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                   \
    a##n __tsan_atomic##n##_exchange(volatile a##n* p, a##n v, int mo)                                  \
    {                                                                                                   \
        point(p, true);                                                                                 \
        after_load(p, mo);                                                                              \
        before_store(p, mo, true);                                                                      \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                             \
    }                                                                                                   \
    RMW(n, add) RMW(n, sub) RMW(n, and) RMW(n, or) RMW(n, xor) RMW(n, nand) CAS(n, strong) CAS(n, weak)   \
        a##n __tsan_atomic##n##_compare_exchange_val(volatile a##n* p, a##n e, a##n v, int mo, int fmo) \
    {                                                                                                   \
        __tsan_atomic##n##_compare_exchange_strong(p, &e, v, mo, fmo);                                  \
        return e;                                                                                       \
    }
#define RMW(n, op)                                                             \
    a##n __tsan_atomic##n##_fetch_##op(volatile a##n* p, a##n v, int mo)       \
    {                                                                          \
        point(p, true);                                                        \
        after_load(p, mo);                                                     \
        before_store(p, mo, true);                                             \
        return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                    \
    }
#define CAS(n, kind)                                                                                                    \
    int __tsan_atomic##n##_compare_exchange_##kind(volatile a##n* p, a##n* e, a##n v, int mo, int fmo)                  \
    {                                                                                                                   \
        point(p, true);                                                                                                 \
        bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
        after_load(p, ok ? mo : fmo);                                                                                   \
        if (ok)                                                                                                         \
            before_store(p, mo, true);                                                                                  \
        return ok;                                                                                                      \
    }
    ATOM(8)
    ATOM(16)
    ATOM(32)
    ATOM(64)
    void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
    void __tsan_atomic_signal_fence(int) {}

    // ---- local statics: the first byte of the guard is the flag, the second says that somebody is at it
    int __cxa_guard_acquire(long* g)
    {
        char* f = reinterpret_cast<char*>(g);
        if (!rec)
        {
            if (f[0])
                return 0;
            f[1] = 1;
            return 1;
        }
        point(g, !f[0]);
        while (f[1] && !f[0])
            yield_(true, g);
        if (f[0])
        {
            acquire(g);
            return 0;
        }
        f[1] = 1;
        return 1;
    }
    void __cxa_guard_release(long* g)
    {
        char* f = reinterpret_cast<char*>(g);
        release(g, false);
        f[0] = 1;
        f[1] = 0;
        wake(g);
    }
    void __cxa_guard_abort(long* g)
    {
        reinterpret_cast<char*>(g)[1] = 0;
        wake(g);
    }

    // ---- mutexes, once flags (linked with --wrap)
    static std::unordered_map<W, int>* owners; // 0: free, k + 1: locked by k, -n: n readers
    static int& owner(const void* p)
    {
        Quiet q;
        if (!owners)
            owners = new std::unordered_map<W, int>;
        return (*owners)[W(p)];
    }
    static int lock(const void* p, bool shared, bool try_)
    {
        point(p, true);
        while (shared ? owner(p) > 0 : owner(p) != 0)
        {
            if (try_)
                return EBUSY;
            yield_(true, p);
        }
        owner(p) = shared ? owner(p) - 1 : me + 1;
        acquire(p);
        return 0;
    }
    static int unlock(const void* p)
    {
        point(p, true);
        release(p, true);
        owner(p) = owner(p) < 0 ? owner(p) + 1 : 0;
        wake(p);
        return 0;
    }
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return rec ? lock(m, false, false) : __real_pthread_mutex_lock(m); }
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return rec ? lock(m, false, true) : __real_pthread_mutex_trylock(m); }
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return rec ? unlock(m) : __real_pthread_mutex_unlock(m); }
    int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rec ? lock(m, false, false) : __real_pthread_rwlock_wrlock(m); }
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rec ? lock(m, true, false) : __real_pthread_rwlock_rdlock(m); }
    int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return rec ? unlock(m) : __real_pthread_rwlock_unlock(m); }
    int __real_pthread_once(pthread_once_t*, void (*)());
    int __wrap_pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!rec)
            return __real_pthread_once(o, f);
        int* s = reinterpret_cast<int*>(o); // 0: not yet, 1: somebody is at it, 2: done
        point(o, *s != 2);
        while (*s == 1)
            yield_(true, o);
        if (*s == 2)
        {
            acquire(o);
            return 0;
        }
        *s = 1;
        f();
        release(o, false);
        *s = 2;
        wake(o);
        return 0;
    }
}
