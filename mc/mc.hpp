// mc.hpp - a small stateless explicit-state explorer for sequential C++ code.
//
// A harness registers scenarios. A scenario body is an ordinary function that asks for every
// nondeterministic decision (which operand, which operation, which environment answer, which fault
// point) through Ctx::choose(n). The explorer runs the body once for EVERY sequence of answers
// (depth-first, exhaustively), on the real code, with fresh objects each time.
//
//  * A violation is a thrown mc::Violation (use CHECK / c.fail), an escaped exception, a crash
//    (signal, sanitizer abort, libstdc++ assertion), or an execution that does not end.
//  * Each block (scenario, shard of the first choice) runs in a forked child of its own, so a crash or a
//    hang is contained, and the process state at the start of a block does not depend on other blocks.
//  * The choice sequence of the running execution lives in shared memory; whatever happens, the parent
//    knows it, and replays it (alone, in a fresh child) before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <tuple>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define MC_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_SAN 1
#else
#define MC_SAN 0
#endif
#else
#define MC_SAN 0
#endif

namespace mc
{
struct Violation
{
    std::string msg;
};
// Memory that was not given back. Something made on first use (a table in a function) looks the same, but only once:
// the execution is repeated in the same process, and a violation is what happens again every time.
struct Leak
{
    std::string msg;
};
struct SkipBlock
{
};

constexpr int MAXLEN = 400;

struct Slot
{
    std::atomic<std::uint64_t> execs, steps, beat;
    std::uint32_t len;
    std::uint32_t path[MAXLEN];
    std::uint32_t radix[MAXLEN];
    std::uint32_t sample_len;
    std::uint32_t sample[MAXLEN];
    std::uint64_t known_mask; // bit i: known finding i was seen
    char msg[6000];
};

struct Table // shared exact set of 64-bit hashes
{
    static constexpr std::uint64_t CAP = 1ull << 23;
    std::atomic<std::uint64_t> count[2], saturated;
    std::atomic<std::uint64_t> cell[CAP];
    void add(std::uint64_t h, int kind)
    {
        h = h * 2 + kind;
        h ^= h >> 31;
        h *= 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        if (h == 0)
            h = 1;
        for (std::uint64_t i = h % CAP, n = 0; n < 64; ++n, i = (i + 1) % CAP)
        {
            std::uint64_t v = cell[i].load(std::memory_order_relaxed);
            if (v == h)
                return;
            if (v == 0)
            {
                if (cell[i].compare_exchange_strong(v, h))
                {
                    count[kind]++;
                    return;
                }
                if (v == h)
                    return;
            }
        }
        saturated++;
    }
};

inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i)
    {
        h ^= b[i];
        h *= 1099511628211ull;
    }
    return h;
}
inline std::uint64_t hash_str(const std::string& s, std::uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

struct Known
{
    std::string key, text;
};

struct Global
{
    int tier = 0; // 0 quick, 1 thorough
    int jobs = 8;
    double budget = 300;
    int hang = 15;
    std::string property, json, replay_dir = ".";
    std::vector<Known> known;
    Table* table = nullptr;
};
inline Global G;

class Ctx
{
public:
    Slot* slot = nullptr;
    std::uint32_t pos = 0;
    std::uint32_t shard = 0, nshards = 1;
    bool tracing = false;
    bool replaying = false;
    const std::string* scenario = nullptr;

    // Answer of the next nondeterministic decision: 0..n-1, every one of them in some execution.
    std::uint32_t choose(std::size_t n)
    {
        if (n == 0)
            broken("choose(0)");
        if (pos < slot->len)
        {
            if (slot->radix[pos] != n)
            {
                if (replaying && slot->radix[pos] == 0)
                    slot->radix[pos] = n;
                else
                    broken("replay divergence: the number of alternatives changed while a prefix was replayed");
            }
            if (slot->path[pos] >= n)
                broken("replay divergence: recorded choice out of range");
            return slot->path[pos++];
        }
        if (pos >= MAXLEN)
            broken("choice sequence too long");
        std::uint32_t first = pos == 0 ? shard : 0;
        if (first >= n)
            throw SkipBlock{};
        slot->path[pos] = first;
        slot->radix[pos] = n;
        slot->len = pos + 1;
        return slot->path[pos++];
    }
    // lo..hi inclusive
    long pick(long lo, long hi)
    {
        return lo + long(choose(hi - lo + 1));
    }
    template <class V>
    const auto& of(const V& v)
    {
        return v[choose(std::size(v))];
    }
    bool flip()
    {
        return choose(2) == 1;
    }
    void step(std::uint64_t n = 1)
    {
        slot->steps.fetch_add(n, std::memory_order_relaxed);
    }
    // Progress inside one long execution: not a hang.
    void beat()
    {
        slot->beat.fetch_add(1, std::memory_order_relaxed);
    }
    void state(const std::string& s)
    {
        G.table->add(hash_str(s, hash_str(*scenario)), 0);
    }
    void state(std::uint64_t h)
    {
        G.table->add(h ^ hash_str(*scenario), 0);
    }
    void outcome(const std::string& s)
    {
        G.table->add(hash_str(s), 1);
    }
    [[noreturn]] void fail(const std::string& m)
    {
        throw Violation{m};
    }
    // A failure that is listed as a known finding under `key` is recorded, any other is a violation.
    void fail_unless_known(const std::string& key, const std::string& m)
    {
        for (std::size_t i = 0; i < G.known.size() && i < 64; ++i)
        {
            if (G.known[i].key == key)
            {
                slot->known_mask |= 1ull << i;
                return;
            }
        }
        throw Violation{m + "  [key " + key + "]"};
    }
    bool next()
    {
        while (slot->len > 0)
        {
            std::uint32_t i = slot->len - 1;
            std::uint32_t stride = i == 0 ? nshards : 1;
            if (slot->path[i] + stride < slot->radix[i])
            {
                slot->path[i] += stride;
                return true;
            }
            slot->len--;
        }
        return false;
    }
    [[noreturn]] void broken(const char* what)
    {
        std::snprintf(slot->msg, sizeof slot->msg, "MACHINERY: %s", what);
        _exit(4);
    }
};

#define MC_STR_(x) #x
#define MC_STR(x) MC_STR_(x)
#define CHECK(cond, ...)                                                                           \
    do                                                                                             \
    {                                                                                              \
        if (!(cond))                                                                               \
        {                                                                                          \
            std::ostringstream mc_o;                                                               \
            mc_o << "check failed: " #cond << "  " __VA_OPT__(<< __VA_ARGS__);                     \
            throw mc::Violation{mc_o.str()};                                                       \
        }                                                                                          \
    } while (0)
#define CHECK_LEAK(cond, ...)                                                                      \
    do                                                                                             \
    {                                                                                              \
        if (!(cond))                                                                               \
        {                                                                                          \
            std::ostringstream mc_o;                                                               \
            mc_o << "check failed: " #cond << "  " __VA_OPT__(<< __VA_ARGS__);                     \
            throw mc::Leak{mc_o.str()};                                                            \
        }                                                                                          \
    } while (0)
#define LOG(c, ...)                                                                                \
    do                                                                                             \
    {                                                                                              \
        if ((c).tracing)                                                                           \
        {                                                                                          \
            std::ostringstream mc_o;                                                               \
            mc_o << __VA_ARGS__ << "; ";                                                           \
            std::string mc_t = mc_o.str();                                                         \
            (void)!write(1, mc_t.data(), mc_t.size());                                             \
        }                                                                                          \
    } while (0)

struct Scenario
{
    std::string name;
    int shards;
    std::function<void(Ctx&)> body;
    // Sizes beyond 16 bits ("very long", ...): what is slow for them may only be slow, so a hang takes longer to be
    // called one, and a block is cut off (incomplete, no verdict) rather than let run.
    bool large;
};
inline std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
inline void scenario(const std::string& name, int shards, std::function<void(Ctx&)> body)
{
    scenarios().push_back({name, shards, std::move(body), name.find("very ") != std::string::npos || name.find("beyond 16 bits") != std::string::npos});
}

// Runs one execution; returns false and sets msg on a violation.
inline bool run_one(const Scenario& s, Ctx& c, std::string& msg, int again = 2)
{
    c.pos = 0;
    try
    {
        s.body(c);
    }
    catch (const Leak& v)
    {
        if (again > 0)
            return run_one(s, c, msg, again - 1);
        msg = v.msg;
        return false;
    }
    catch (const Violation& v)
    {
        msg = v.msg;
        return false;
    }
    catch (const SkipBlock&)
    {
        throw;
    }
    catch (const std::exception& e)
    {
        msg = std::string("unexpected exception: ") + e.what();
        return false;
    }
    return true;
}

inline void child_limits()
{
    rlimit r{0, 0};
    setrlimit(RLIMIT_CORE, &r);
#if !MC_SAN
    rlimit a{6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &a);
#endif
}

// Exit codes of a child: 0 done, 3 violation, 4 machinery error.
[[noreturn]] inline void child_block(const Scenario& s, int shard, Slot* slot)
{
    child_limits();
    Ctx c;
    c.slot = slot;
    c.shard = shard;
    c.nshards = s.shards;
    c.scenario = &s.name;
    slot->len = 0;
    std::uint64_t n = 0, want = 5;
    std::string msg;
    try
    {
        do
        {
            if (!run_one(s, c, msg))
            {
                std::snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
                _exit(3);
            }
            if (c.pos < slot->len)
                c.broken("replay divergence: the execution ended before its recorded prefix");
            slot->execs.fetch_add(1, std::memory_order_relaxed);
            if (++n == want)
            {
                slot->sample_len = slot->len;
                std::memcpy(slot->sample, slot->path, sizeof(std::uint32_t) * slot->len);
                if (want < 1u << 30)
                    want *= 7;
            }
            else if (n == 1)
            {
                slot->sample_len = slot->len;
                std::memcpy(slot->sample, slot->path, sizeof(std::uint32_t) * slot->len);
            }
        } while (c.next());
    }
    catch (const SkipBlock&)
    {
    }
    _exit(0);
}

inline void write_file(const std::string& p, const std::string& t)
{
    std::ofstream(p) << t;
}

// Replays one choice sequence with tracing, in this process. The trace goes to stdout.
[[noreturn]] inline void child_replay(const Scenario& s, int shard, Slot* slot, const std::vector<std::uint32_t>& path, int fd)
{
    child_limits();
    if (fd >= 0)
    {
        dup2(fd, 1);
        dup2(fd, 2);
    }
    Ctx c;
    c.slot = slot;
    c.shard = shard;
    c.nshards = s.shards;
    c.scenario = &s.name;
    c.replaying = true;
    c.tracing = true;
    std::memset(slot->radix, 0, sizeof slot->radix);
    slot->len = path.size();
    std::copy(path.begin(), path.end(), slot->path);
    std::string msg;
    bool ok = true;
    try
    {
        ok = run_one(s, c, msg);
    }
    catch (const SkipBlock&)
    {
    }
    std::string out;
    if (!ok)
    {
        std::snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
        out += "\nVIOLATED: " + msg + "\n";
    }
    out += "\n";
    (void)!write(1, out.data(), out.size());
    _exit(ok ? 0 : 3);
}

struct Run // one running child
{
    pid_t pid = 0;
    int scen = 0, shard = 0;
    Slot* slot = nullptr;
    std::uint64_t last = 0;
    std::chrono::steady_clock::time_point when, start;
    bool hung = false, cut = false;
};

inline std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        char b[8];
        if (ch == '"' || ch == '\\')
            o += '\\', o += ch;
        else if (ch < 0x20 || ch >= 0x7f)
            std::snprintf(b, sizeof b, "\\u%04x", ch), o += b;
        else
            o += ch;
    }
    return o + "\"";
}

inline int wait_for(pid_t pid, double seconds, bool& timed_out)
{
    auto t0 = std::chrono::steady_clock::now();
    int st = 0;
    timed_out = false;
    while (true)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            return st;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds)
        {
            timed_out = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return st;
        }
        usleep(2000);
    }
}

// Replay in a fresh child; returns "ok", "violation", "crash", "hang"; the output is captured in text.
inline std::string replay_in_child(const Scenario& s, int shard, const std::vector<std::uint32_t>& path, Slot* slot, double limit, std::string& text)
{
    char tmpl[] = "/tmp/mcreplay.XXXXXX";
    int fd = mkstemp(tmpl);
    unlink(tmpl);
    slot->msg[0] = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
        child_replay(s, shard, slot, path, fd);
    bool to;
    int st = wait_for(pid, limit, to);
    lseek(fd, 0, SEEK_SET);
    char buf[65536];
    ssize_t n = read(fd, buf, sizeof buf);
    text.assign(buf, n > 0 ? n : 0);
    close(fd);
    if (to)
        return "hang";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return "ok";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
        return "violation";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4)
        return "machinery";
    return "crash";
}

// Re-runs a whole block in a fresh child (for failures that need the history of the block).
inline std::string rerun_block(const Scenario& s, int shard, Slot* slot, double limit, std::string& msg)
{
    slot->msg[0] = 0;
    slot->execs = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        int nul = ::open("/dev/null", 1);
        (void)nul;
        child_block(s, shard, slot);
    }
    bool to;
    int st = wait_for(pid, limit, to);
    msg = slot->msg;
    if (to)
        return "hang";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return "ok";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
        return "violation";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4)
        return "machinery";
    return "crash";
}

inline int main_(int argc, char** argv)
{
    std::vector<std::string> a(argv + 1, argv + argc);
    std::string only;
    std::vector<std::uint32_t> path;
    int rs = -1, rshard = 0;
    bool block_replay = false;
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        if (a[i] == "--tier")
            G.tier = a[++i] == "thorough";
        else if (a[i] == "--jobs")
            G.jobs = std::stoi(a[++i]);
        else if (a[i] == "--budget")
            G.budget = std::stod(a[++i]);
        else if (a[i] == "--hang")
            G.hang = std::stoi(a[++i]);
        else if (a[i] == "--json")
            G.json = a[++i];
        else if (a[i] == "--only")
            only = a[++i];
        else if (a[i] == "--known")
        {
            std::ifstream f(a[++i]);
            std::string l;
            while (std::getline(f, l))
            {
                auto t = l.find('\t');
                if (t != std::string::npos)
                    G.known.push_back({l.substr(0, t), l.substr(t + 1)});
            }
        }
        else if (a[i] == "--replay" || a[i] == "--replay-block") // SCENARIO SHARD c,c,c
        {
            block_replay = a[i] == "--replay-block";
            std::string name = a[++i];
            for (std::size_t k = 0; k < scenarios().size(); ++k)
                if (scenarios()[k].name == name)
                    rs = k;
            rshard = std::stoi(a[++i]);
            if (!block_replay && i + 1 < a.size())
            {
                std::stringstream ss(a[++i]);
                std::string x;
                while (std::getline(ss, x, ','))
                    path.push_back(std::stoul(x));
            }
            if (rs < 0)
            {
                std::cerr << "no scenario " << name << "\n";
                return 2;
            }
        }
    }

    G.table = static_cast<Table*>(mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto new_slot = [] { return static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); };

    if (rs >= 0)
    {
        Slot* s = new_slot();
        if (block_replay)
        {
            std::string msg;
            std::string r = rerun_block(scenarios()[rs], rshard, s, 3600, msg);
            std::cout << r << ": " << msg << "\n";
            return r == "ok" ? 0 : 3;
        }
        std::string text;
        std::string r = replay_in_child(scenarios()[rs], rshard, path, s, 120, text);
        std::cout << text << "\nresult: " << r << "\n";
        return r == "ok" ? 0 : 3;
    }

    struct Block
    {
        int scen, shard;
    };
    std::vector<Block> blocks;
    for (std::size_t i = 0; i < scenarios().size(); ++i)
    {
        if (!only.empty() && scenarios()[i].name.find(only) == std::string::npos)
            continue;
        for (int k = 0; k < scenarios()[i].shards; ++k)
            blocks.push_back({int(i), k});
    }

    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

    std::vector<Slot*> free_slots;
    for (int i = 0; i < G.jobs; ++i)
        free_slots.push_back(new_slot());
    Slot* rslot = new_slot();
    std::vector<Run> running;
    std::size_t nextb = 0;
    bool capped = false, stop = false;

    struct Stat
    {
        std::uint64_t execs = 0, steps = 0;
        int done = 0, started = 0;
        double cpu = 0;
    };
    std::vector<Stat> stat(scenarios().size());
    struct Sample
    {
        int scen, shard;
        std::vector<std::uint32_t> path;
    };
    std::map<int, Sample> samples;
    struct Bad
    {
        std::size_t scen;
        int shard;
        std::vector<std::uint32_t> path;
        std::string kind, msg;
    };
    std::vector<Bad> bad;
    std::uint64_t known_mask = 0;
    double deadline = G.budget * 1.25; // blocks still running then are cut off (reported as incomplete)

    while (!running.empty() || (nextb < blocks.size() && !stop))
    {
        while (!stop && nextb < blocks.size() && !free_slots.empty())
        {
            if (elapsed() > G.budget)
            {
                capped = true;
                stop = true;
                break;
            }
            Run r;
            r.scen = blocks[nextb].scen;
            r.shard = blocks[nextb].shard;
            r.slot = free_slots.back();
            free_slots.pop_back();
            ++nextb;
            std::memset(static_cast<void*>(r.slot), 0, sizeof(Slot));
            r.when = r.start = std::chrono::steady_clock::now();
            stat[r.scen].started++;
            std::fflush(nullptr);
            r.pid = fork();
            if (r.pid < 0)
            {
                std::cerr << "fork failed\n";
                return 2;
            }
            if (r.pid == 0)
            {
                if (!std::getenv("MC_VERBOSE"))
                {
                    int nul = ::open("/dev/null", 1);
                    dup2(nul, 2);
                    dup2(nul, 1);
                }
                child_block(scenarios()[r.scen], r.shard, r.slot);
            }
            running.push_back(r);
        }
        bool any = false;
        for (std::size_t i = 0; i < running.size();)
        {
            Run& r = running[i];
            int st;
            rusage ru;
            pid_t p = wait4(r.pid, &st, WNOHANG, &ru);
            if (p == 0)
            {
                auto now = std::chrono::steady_clock::now();
                const bool large = scenarios()[r.scen].large;
                if ((elapsed() > deadline || (large && std::chrono::duration<double>(now - r.start).count() > 100)) && !r.cut && !r.hung)
                {
                    r.cut = true;
                    capped = true;
                    kill(r.pid, SIGKILL);
                }
                std::uint64_t v = r.slot->execs + r.slot->beat;
                if (v != r.last)
                {
                    r.last = v;
                    r.when = now;
                }
                else if (std::chrono::duration<double>(now - r.when).count() > (large ? 4 : 1) * G.hang && !r.hung && !r.cut)
                {
                    r.hung = true;
                    kill(r.pid, SIGKILL);
                }
                ++i;
                continue;
            }
            any = true;
            Stat& s = stat[r.scen];
            s.execs += r.slot->execs;
            s.steps += r.slot->steps;
            s.cpu += ru.ru_utime.tv_sec + ru.ru_utime.tv_usec * 1e-6;
            known_mask |= r.slot->known_mask;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            {
                s.done++;
                if (r.slot->sample_len && (samples.count(r.scen) == 0 || r.shard == scenarios()[r.scen].shards / 2))
                    samples[r.scen] = {r.scen, r.shard, {r.slot->sample, r.slot->sample + r.slot->sample_len}};
            }
            else if (r.cut && WIFSIGNALED(st))
            {
            }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 4)
            {
                std::cerr << "machinery error in " << scenarios()[r.scen].name << ": " << r.slot->msg << "\n";
                // A divergence while a prefix is replayed means nondeterminism outside the explorer's control,
                // e.g. hidden state carried from one execution to the next. Not a verdict.
                Bad b{std::size_t(r.scen), r.shard, {r.slot->path, r.slot->path + r.slot->len}, "machinery", r.slot->msg};
                bad.push_back(b);
                stop = true;
            }
            else
            {
                std::string kind = r.hung ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? "violation" : "crash";
                Bad b{std::size_t(r.scen), r.shard, {r.slot->path, r.slot->path + std::min<std::uint32_t>(r.slot->len, MAXLEN)}, kind, r.slot->msg};
                if (kind == "crash")
                    b.msg = WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st)) : "process aborted with exit code " + std::to_string(WEXITSTATUS(st));
                if (kind == "hang")
                    b.msg = "execution did not terminate";
                bad.push_back(b);
                stop = true;
            }
            if (!bad.empty())
                deadline = std::min(deadline, elapsed() + 20);
            free_slots.push_back(r.slot);
            running.erase(running.begin() + i);
        }
        if (!any)
            usleep(1000);
    }

    int rc = 0;
    std::string viol, unconfirmed;
    if (!bad.empty())
    {
        std::sort(bad.begin(), bad.end(), [](const Bad& x, const Bad& y)
                  { return std::make_tuple(x.kind == "machinery", x.scen, x.path.size(), x.shard) < std::make_tuple(y.kind == "machinery", y.scen, y.path.size(), y.shard); });
        bool confirmed = false, doubt = false;
        for (auto& b : bad)
        {
            const Scenario& s = scenarios()[b.scen];
            std::string text, how;
            std::string p;
            for (auto x : b.path)
                p += (p.empty() ? "" : ",") + std::to_string(x);
            bool again = false;
            std::string kind2;
            if (b.kind == "machinery")
            {
                // fall through to the block replay below: deterministic divergence is reported as an error
                kind2 = "machinery";
            }
            else
            {
                kind2 = replay_in_child(s, b.shard, b.path, rslot, s.large ? 150 : 60, text);
                again = kind2 != "ok" && kind2 != "machinery";
                how = "--replay " + s.name + " " + std::to_string(b.shard) + " " + p;
                if (!again && b.kind != "hang")
                {
                    std::string m;
                    kind2 = rerun_block(s, b.shard, rslot, 600, m);
                    again = kind2 != "ok" && kind2 != "machinery";
                    how = "--replay-block " + s.name + " " + std::to_string(b.shard);
                    text += "\n(the failure needs the preceding executions of the block) " + m;
                }
            }
            if (!again)
            {
                if (b.kind == "hang" && kind2 == "ok") // slow, but it ends
                    capped = true;
                else
                    doubt = true;
                if (unconfirmed.empty() && b.kind != "hang" && b.kind != "machinery")
                    unconfirmed = "{\"scenario\": " + json_str(s.name) + ", \"shard\": " + std::to_string(b.shard) + ", \"choices\": [" + p + "], \"kind\": " + json_str(b.kind) +
                                  ", \"message\": " + json_str(b.msg) + ", \"replay_args\": " + json_str("--only " + s.name) + ", \"trace\": " + json_str(text.substr(0, 8000)) + "}";
                std::cerr << "not reproduced (" << b.kind << "): scenario " << s.name << " shard " << b.shard << " path " << p << " : " << b.msg << "\n";
                continue;
            }
            std::string msg = rslot->msg[0] ? std::string(rslot->msg) : b.msg;
            viol = "{\"scenario\": " + json_str(s.name) + ", \"shard\": " + std::to_string(b.shard) + ", \"choices\": [" + p + "], \"kind\": " + json_str(kind2) +
                   ", \"message\": " + json_str(msg) + ", \"replay_args\": " + json_str(how) + ", \"trace\": " + json_str(text.substr(0, 8000)) + "}";
            confirmed = true;
            break;
        }
        rc = confirmed ? 1 : doubt ? 2 : 0;
    }

    std::uint64_t execs = 0, steps = 0;
    std::ostringstream js;
    js << "{\"scenarios\": {";
    bool first = true;
    bool complete = !capped;
    for (std::size_t i = 0; i < scenarios().size(); ++i)
    {
        if (stat[i].started == 0 && !only.empty())
            continue;
        execs += stat[i].execs;
        steps += stat[i].steps;
        bool done = stat[i].done == scenarios()[i].shards;
        complete = complete && done;
        js << (first ? "" : ", ") << json_str(scenarios()[i].name) << ": {\"executions\": " << stat[i].execs << ", \"steps\": " << stat[i].steps << ", \"complete\": " << (done ? "true" : "false") << ", \"cpu_s\": " << std::round(stat[i].cpu * 100) / 100 << "}";
        first = false;
    }
    js << "}, \"executions\": " << execs << ", \"steps\": " << steps << ", \"states\": " << G.table->count[0] << ", \"outcomes\": " << G.table->count[1] << ", \"table_saturated\": " << G.table->saturated
       << ", \"exhaustive\": " << (complete ? "true" : "false") << ", \"wall_s\": " << elapsed() << ", \"samples\": [";
    int ns = 0;
    if (rc == 0)
    {
        for (auto& [k, s] : samples)
        {
            if (ns >= 4)
                break;
            std::string text;
            std::string kind = replay_in_child(scenarios()[s.scen], s.shard, s.path, rslot, 60, text);
            while (!text.empty() && text.back() == '\n')
                text.pop_back();
            js << (ns ? ", " : "") << json_str(scenarios()[s.scen].name + ": " + text.substr(0, 700));
            ++ns;
        }
    }
    js << "], \"known\": [";
    bool f2 = true;
    for (std::size_t i = 0; i < G.known.size() && i < 64; ++i)
    {
        if (known_mask >> i & 1)
        {
            js << (f2 ? "" : ", ") << json_str(G.known[i].text);
            f2 = false;
        }
    }
    js << "], \"violation\": " << (viol.empty() ? "null" : viol) << ", \"unconfirmed\": " << (unconfirmed.empty() || !viol.empty() ? "null" : unconfirmed) << "}\n";
    if (!G.json.empty())
        write_file(G.json, js.str());
    else
        std::cout << js.str();
    return rc;
}

template <class F>
inline bool throws_runtime(F&& f)
{
    try
    {
        f();
    }
    catch (const std::runtime_error&)
    {
        return true;
    }
    return false;
}
} // namespace mc

// A harness defines register_scenarios(). One that says "// parts: N" is compiled N times, with PART = 0..N-1, and
// the objects are linked: each compilation then defines its own share of the scenarios with MC_PART { ... }.
#ifndef PART
void register_scenarios();
#else
#include <map>
namespace mc
{
inline std::map<int, void (*)()> parts;
struct Part
{
    Part(int k, void (*f)()) { parts[k] = f; }
};
} // namespace mc
#define MC_PART                                     \
    static void part_scenarios();                   \
    static mc::Part the_part(PART, part_scenarios); \
    static void part_scenarios()
inline void register_scenarios()
{
    for (auto& [k, f] : mc::parts)
        f();
}
#endif

#if !defined(PART) || PART == 0
int main(int argc, char** argv)
{
    // The tier decides bounds at registration time.
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string(argv[i]) == "--tier")
            mc::G.tier = std::string(argv[i + 1]) == "thorough";
    register_scenarios();
    return mc::main_(argc, argv);
}
#endif
