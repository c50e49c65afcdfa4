// Engine T: stateless model checker for code instrumented with -fsanitize=thread.
// Only plain C types cross this interface (see DESIGN.md, "Engine T").
#pragma once
#include <cstddef>
#include <cstdint>

enum { MC_MAXT = 5 };            // thread 0 is the main (setup/finish) thread

struct mc_program {
    int nthreads;                               // worker threads 1..nthreads
    void (*setup)(void* arg);                   // thread 0, before the workers
    void (*thread)(void* arg, int t);           // worker t (1-based)
    void (*finish)(void* arg);                  // thread 0, after the workers
    const char* (*check)(void* arg);            // oracle, after finish: nullptr or a complaint
    void* arg;
};

struct mc_stats {
    uint64_t executions;       // complete executions (distinct Mazurkiewicz traces, up to redundancy)
    uint64_t blocked;          // executions cut because all enabled threads were asleep
    uint64_t transitions;      // visible operations executed (over all executions)
    uint64_t states;           // nodes of the exploration tree
    uint64_t accesses;         // plain memory accesses checked
    uint64_t max_len;          // longest execution
    bool     complete;         // the whole space was explored
    char     violation[1024];  // first violation, or ""
    int      schedule[8192];   // its schedule
    int      schedule_len;
};

extern "C" {
void mc_init(void);
void mc_watchdog(void);         // reports executions that hang (CPU time)
int mc_shared_next(int* counter); // next program number, counted across worker processes
void mc_naive(int on);         // self-test of the reduction: 1 plain depth-first search, 2 sleep sets only
void mc_explore(const mc_program* p, uint64_t max_exec, mc_stats* out);
// Replays one schedule; prints the trace if verbose. Returns true if it violates.
bool mc_replay(const mc_program* p, const int* sched, int n, bool verbose, mc_stats* out);

// Called by programs under test.
int  mc_self(void);
void mc_api_begin(void);       // scheduling point: start of an API call (ordered against api_end)
void mc_api_end(void);
uint64_t mc_now(void);         // logical time: number of visible events so far
void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // does not return
size_t mc_live_blocks(void);   // heap blocks of the program under test that are still allocated
void mc_quiet(int on);         // suspend (1) / resume (0) access checking in harness bookkeeping
}
