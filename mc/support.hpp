// support.hpp - allocation accounting and fault injection, tracked elements, printing helpers.
#pragma once
#include "mc.hpp"
#include <climits>
#include <cstdlib>
#include <locale>
#include <new>

namespace mc
{
// ---- another global locale, as a program may set it: the text of numbers must not depend on it -----------
struct ForeignLocale
{
    struct Punct : std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
        std::string do_truename() const override { return "wahr"; }
        std::string do_falsename() const override { return "falsch"; }
    };
    struct Type : std::ctype<char>
    {
        mask table[table_size];
        Type() : std::ctype<char>(table, false)
        {
            std::copy_n(classic_table(), table_size, table);
            table[0xa0] = space | blank;
            table[0xb2] = digit | alnum;
            table[0xe9] = lower | alpha;
            table[0xc9] = upper | alpha;
        }
        char do_toupper(char c) const override { return c == '\xe9' ? '\xc9' : c == 'i' ? '\xdd' : std::ctype<char>::do_toupper(c); }
        char do_tolower(char c) const override { return c == '\xc9' ? '\xe9' : c == 'I' ? '\xfd' : std::ctype<char>::do_tolower(c); }
        const char* do_toupper(char* a, const char* e) const override
        {
            for (; a != e; ++a)
                *a = do_toupper(*a);
            return e;
        }
        const char* do_tolower(char* a, const char* e) const override
        {
            for (; a != e; ++a)
                *a = do_tolower(*a);
            return e;
        }
    };
    std::locale old;
    ForeignLocale() : old(std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct), new Type))) {}
    ~ForeignLocale() { std::locale::global(old); }
};
// ---- allocation accounting -------------------------------------------------------------------------------
struct Alloc
{
    long live = 0;     // blocks currently allocated
    long count = 0;    // allocations since reset
    long fail_at = -1; // the fail_at-th allocation from the reset (0-based) throws bad_alloc
    bool failed = false;
    void arm(long at)
    {
        count = 0;
        fail_at = at;
        failed = false;
    }
    void disarm()
    {
        fail_at = -1;
    }
};
inline Alloc A;

inline void* do_new(std::size_t n, std::size_t al = 0)
{
    if (A.fail_at >= 0 && A.count == A.fail_at)
    {
        A.count++;
        A.failed = true;
        throw std::bad_alloc();
    }
    A.count++;
    void* p = al ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    A.live++;
    return p;
}
inline void do_delete(void* p) noexcept
{
    if (p)
    {
        A.live--;
        std::free(p);
    }
}

// ---- tracked element -------------------------------------------------------------------------------------
// key takes part in comparisons; id does not, so equal elements can be told apart.
// Every live object owns a heap cell: double destruction, use after destruction and leaks are visible to ASan
// and to the live counter. Copies can be made to fail.
struct TrackedStats
{
    long live = 0, copies = 0, fail_at = -1;
    bool failed = false;
    void arm(long at)
    {
        copies = 0;
        fail_at = at;
        failed = false;
    }
    void disarm()
    {
        fail_at = -1;
    }
};
inline TrackedStats TS;

struct Tracked
{
    int key = 0, id = 0;
    int magic = MAGIC;
    int* cell = nullptr;
    static constexpr int MAGIC = 0x5a17c0de;

    Tracked(int k = 0, int i = 0)
        : key(k)
        , id(i)
        , cell(make(k))
    {
        TS.live++;
    }
    Tracked(const Tracked& o)
        : key(o.get())
        , id(o.id)
    {
        on_copy();
        cell = make(key);
        TS.live++;
    }
    Tracked(Tracked&& o) noexcept
        : key(o.get())
        , id(o.id)
        , cell(o.cell)
    {
        o.cell = nullptr;
        o.key = -777;
        o.id = -777;
        TS.live++;
    }
    Tracked& operator=(const Tracked& o)
    {
        alive();
        on_copy();
        int* c = make(o.get());
        int k = o.key, i = o.id;
        delete cell;
        cell = c;
        key = k;
        id = i;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        alive();
        if (this != &o)
        {
            delete cell;
            cell = o.cell;
            key = o.key;
            id = o.id;
            o.cell = nullptr;
            o.key = -777;
            o.id = -777;
        }
        return *this;
    }
    ~Tracked()
    {
        alive();
        delete cell;
        cell = nullptr;
        magic = 0;
        TS.live--;
    }
    void alive() const
    {
        if (magic != MAGIC)
            dead();
    }
    [[noreturn]] static void dead()
    {
        std::fprintf(stderr, "use of a dead element\n");
        std::abort();
    }
    int get() const
    {
        alive();
        return key;
    }
    bool operator==(const Tracked& o) const
    {
        return get() == o.get();
    }
    auto operator<=>(const Tracked& o) const
    {
        return get() <=> o.get();
    }
    friend std::ostream& operator<<(std::ostream& os, const Tracked& t)
    {
        return os << t.get();
    }

private:
    static int* make(int k)
    {
        return new int(k);
    }
    static void on_copy()
    {
        if (TS.fail_at >= 0 && TS.copies == TS.fail_at)
        {
            TS.copies++;
            TS.failed = true;
            throw std::logic_error("element copy failed");
        }
        TS.copies++;
    }
};

// ---- printing --------------------------------------------------------------------------------------------
template <class T>
std::string str(const T& v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
inline std::string quote(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s.substr(0, 300))
    {
        char b[8];
        if (ch < 0x20 || ch >= 0x7f || ch == '"' || ch == '\\')
            std::snprintf(b, sizeof b, "\\x%02x", ch), o += b;
        else
            o += ch;
    }
    return o + "\"" + (s.size() > 300 ? "...(" + std::to_string(s.size()) + ")" : "");
}
template <class V>
std::string show(const V& v)
{
    std::ostringstream o;
    o << "[";
    std::size_t n = 0;
    for (const auto& x : v)
    {
        if (n++)
            o << ",";
        if (n > 40)
        {
            o << "...(" << std::size(v) << ")";
            break;
        }
        o << x;
    }
    o << "]";
    return o.str();
}
// Outcome of running f: "ok", "runtime_error" (the documented error), or something else.
template <class F>
std::string outcome_of(F&& f)
{
    try
    {
        f();
    }
    catch (const Violation&)
    {
        throw;
    }
    catch (const std::runtime_error&)
    {
        return "runtime_error";
    }
    catch (const std::bad_alloc&)
    {
        return "bad_alloc";
    }
    catch (const std::exception& e)
    {
        return std::string("other exception: ") + e.what();
    }
    return "ok";
}
} // namespace mc

#if !defined(MC_NO_NEW) && (!defined(PART) || PART == 0)
void* operator new(std::size_t n)
{
    return mc::do_new(n);
}
void* operator new[](std::size_t n)
{
    return mc::do_new(n);
}
void* operator new(std::size_t n, std::align_val_t al)
{
    return mc::do_new(n, std::size_t(al));
}
void* operator new[](std::size_t n, std::align_val_t al)
{
    return mc::do_new(n, std::size_t(al));
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return mc::do_new(n);
    }
    catch (const std::bad_alloc&)
    {
        return nullptr;
    }
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept
{
    return operator new(n, t);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    mc::do_delete(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    mc::do_delete(p);
}
void operator delete(void* p) noexcept
{
    mc::do_delete(p);
}
void operator delete[](void* p) noexcept
{
    mc::do_delete(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    mc::do_delete(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    mc::do_delete(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    mc::do_delete(p);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
    mc::do_delete(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept
{
    mc::do_delete(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept
{
    mc::do_delete(p);
}
#endif
