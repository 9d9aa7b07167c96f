// tsanrt.hpp - interface of the scheduler and race detector in tsanrt.cpp.
#pragma once
#include <cstddef>
#include <set>
#include <string>
#include <vector>

namespace rt
{
// Starts an execution. Between begin() and end() every `new` comes from the arena, where
// no address is used twice within an execution.
void begin();
void end();
// Runs f0(a0) and f1(a1) on two threads, one at a time. Before every synchronising operation on an object in
// `offered` choose(n) says whether to go on (0) or to switch to the other thread, at most `preemptions` times,
// at the first 16 such places.
// Where there are no such operations the order of the two is the only choice.
struct Result
{
    bool race = false;
    std::string what;
    int sync_ops = 0, switches = 0;
    std::size_t accesses = 0;
    bool stuck = false; // both threads wait for each other
    std::set<std::size_t> read[2], written[2]; // the synchronisation objects each thread used
};
Result run(void (*f0)(void*), void* a0, void (*f1)(void*), void* a1, int first, int preemptions, int (*choose)(void*, int), void* arg, const std::set<std::size_t>& offered);
} // namespace rt
