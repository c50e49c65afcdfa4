// Engine S: exhaustive enumeration of sequential executions of the real code.
// An execution is a function that asks choose(n) for every decision (which operation, which value, does this
// allocation fail, ...).  All vectors of choices are enumerated depth first; every execution starts from
// scratch on freshly constructed real objects.  The executions are divided among worker processes; a crash,
// sanitizer report, hang or failed comparison of a worker is a violation, identified by its choices.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>

struct SuiteS {
    const char* name;
    void (*run)(bool thorough);     // one execution
};

int  choose(int n);                       // 0..n-1
bool replaying();                         // print what happens
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // log of the execution (replays, samples)
void step();                              // counts one operation performed on the real code

// heap accounting (operator new / delete)
long live_allocs();
void allocs_quiet(int d);                 // +1 / -1: allocations of the harness itself are not counted
extern bool (*fault_point)();             // if set: asked before each counted allocation, true = it fails
int  rt_main(int argc, char** argv, const SuiteS* suites, int n);
