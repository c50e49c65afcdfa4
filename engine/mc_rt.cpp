// Runtime of engine T.  Compiled WITHOUT instrumentation.  Provides the __tsan_* entry points that
// clang's -fsanitize=thread inserts, the pthread lock functions and operator new/delete, runs the
// threads of a program as fibers, and explores all their interleavings (source-DPOR + sleep sets).
#include "mc.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <exception>
#include <link.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;
extern "C" char __data_start, _end;

namespace {

enum Kind : uint8_t { K_NONE, K_READ, K_WRITE, K_LOCK, K_TRYLOCK, K_UNLOCK, K_RDLOCK, K_RDUNLOCK, K_BEGIN, K_END, K_YIELD, K_FENCE };
const char* kname(int k)
{
    static const char* n[] = {"none","load","rmw/store","lock","trylock","unlock","rdlock","rdunlock","api-begin","api-end","yield","fence"};
    return n[k];
}

struct Op { Kind k; uint8_t len; uintptr_t a; };

struct VC { uint32_t c[MC_MAXT]; };
inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MC_MAXT; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }

const int MAXE = 8192;        // events per execution
struct Event { int tid; Op op; uint32_t tindex; VC vc; };

// exploration tree node: state before event i
struct Node {
    uint8_t enabled, backtrack, done, sleep;
    int8_t chosen;
    Op pend[MC_MAXT];
};

// ---------------------------------------------------------------- memory
const size_t ARENA = 1 << 17;          // per thread
struct Cell {                          // one per byte of the arenas
    uint32_t gen;                      // execution the rest belongs to
    uint32_t w, aw;                    // epoch of the last plain / atomic write (clk*8+tid), 0 = none
    uint32_t r[MC_MAXT], ar[MC_MAXT];  // clock of the last plain / atomic read by each thread
};
struct Block { uintptr_t a; size_t n; bool freed; };

// hash of cells for addresses outside of the arenas (globals)
const int GH = 1 << 14;
struct GCell { uintptr_t a; Cell c; };

struct SyncVar { uintptr_t a; uint32_t gen; VC rel; };
struct Mutex { uintptr_t a; uint32_t gen; int owner; int depth; int readers; uint8_t rmask; bool recursive; VC rel, rrel; VC dvc, drvc; int last_lock; };
const int SH = 1 << 12;

struct Fiber {
    void* sp;
    char* stack;
    bool finished, blocked_yield;
    Op pending;
    VC vc;          // race detector clock
    VC acq_pend;    // clocks read by relaxed loads (made effective by an acquire fence)
    VC rel_fence;   // clock of the last release fence
    VC dvc;         // DPOR clock
    uint32_t tindex;
    uint64_t eh[2]; // saved __cxa_eh_globals
    char tls[512];
    int spin; uintptr_t spin_a; int spin_wait; uint64_t spin_ver;
};

struct RT {
    bool active;               // a program is running under the scheduler or in setup/finish
    bool sched_on;             // worker phase
    int quiet;
    int cur;                   // current thread
    const mc_program* prog;
    Fiber f[MC_MAXT];
    void* explorer_sp;
    char* arena[MC_MAXT];
    size_t bump[MC_MAXT];
    Cell* cells[MC_MAXT];
    uint8_t* state[MC_MAXT];   // per byte: 0 never, 1 allocated, 2 freed
    Block* blocks; int nblocks;
    size_t live;
    uint32_t gen;
    GCell* g; SyncVar* sv; Mutex* mx;
    Event ev[MAXE]; int nev;
    Node nodes[MAXE + 1]; int nnodes;
    int replay_len;            // choices fixed by the exploration
    bool free_replay; const int* rsched; int rn;
    bool failed; char msg[1024];
    bool sleep_blocked, diverged;
    bool verbose; int naive;
    uint64_t accesses; uint64_t exec_no, tick_exec;
    char* snap; size_t snap_n; char* snap_at;
    size_t tls_n; char* tls_at; char* tls_init;
    jmp_buf* fail_jb;
    char* main_lo; char* main_hi;
    uint64_t ver;              // number of visible writes
};
RT* R;                         // set once; kept out of the restored data range by address check below

inline int arena_of(uintptr_t a)
{
    uintptr_t b = (uintptr_t)R->arena[0];
    uintptr_t d = a - b;
    if (d < ARENA * MC_MAXT) return (int)(d / ARENA);
    return -1;
}
inline bool on_stack(uintptr_t a)
{
    if (a >= (uintptr_t)R->main_lo && a < (uintptr_t)R->main_hi) return true;
    uintptr_t lo = (uintptr_t)R->f[1].stack;
    return lo && a - lo < (uintptr_t)(MC_MAXT * (256 << 10));
}

Cell* gcell(uintptr_t a)
{
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 40) & (GH - 1);
    for (int i = 0; i < GH; ++i, h = (h + 1) & (GH - 1)) {
        GCell& c = R->g[h];
        if (c.c.gen != R->gen) { memset(&c, 0, sizeof c); c.c.gen = R->gen; c.a = a; return &c.c; }
        if (c.a == a) return &c.c;
    }
    return nullptr;
}
SyncVar* syncvar(uintptr_t a, bool create)
{
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 40) & (SH - 1);
    for (int i = 0; i < SH; ++i, h = (h + 1) & (SH - 1)) {
        SyncVar& c = R->sv[h];
        if (c.gen != R->gen) { if (!create) return nullptr; memset(&c, 0, sizeof c); c.gen = R->gen; c.a = a; return &c; }
        if (c.a == a) return &c;
    }
    abort();
}
Mutex* mutexvar(uintptr_t a)
{
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 40) & (SH - 1);
    for (int i = 0; i < SH; ++i, h = (h + 1) & (SH - 1)) {
        Mutex& c = R->mx[h];
        if (c.gen != R->gen) { memset(&c, 0, sizeof c); c.gen = R->gen; c.a = a; c.owner = -1; c.last_lock = -1; return &c; }
        if (c.a == a) return &c;
    }
    abort();
}

extern "C" void mc_switch(void** save_sp, void* to);
asm(R"(
.text
.globl mc_switch
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

extern "C" void* __cxa_get_globals();

void save_ctx(Fiber& f)
{
    memcpy(f.eh, __cxa_get_globals(), 16);
    if (R->tls_n) memcpy(f.tls, R->tls_at, R->tls_n);
}
void load_ctx(Fiber& f)
{
    memcpy(__cxa_get_globals(), f.eh, 16);
    if (R->tls_n) memcpy(R->tls_at, f.tls, R->tls_n);
}

[[noreturn]] void leave_execution()
{
    R->sched_on = false; R->active = false;
    longjmp(*R->fail_jb, 1);
}

[[noreturn]] void violation(const char* fmt, va_list ap)
{
    if (!R->failed) { R->failed = true; vsnprintf(R->msg, sizeof R->msg, fmt, ap); }
    leave_execution();
}
[[noreturn]] __attribute__((format(printf, 1, 2))) void fail(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); violation(fmt, ap);
}

// ---------------------------------------------------------------- access checks (race detector, UAF)
void access(uintptr_t a, size_t n, bool write, bool atomic)
{
    if (!R || !R->active || R->quiet) return;
    ++R->accesses;
    int t = R->cur;
    const VC& vc = R->f[t].vc;
    int ar = arena_of(a);
    if (ar < 0) {
        if (on_stack(a)) return;
        if (a < 4096) fail("null pointer access at %#lx (thread %d)", (unsigned long)a, t);
    }
    // Before the workers start and after they ended everything is ordered: only check validity.
    const bool par = R->sched_on;
    if (ar < 0 && !par) return;
    uintptr_t base = ar >= 0 ? (uintptr_t)R->arena[0] + (uintptr_t)ar * ARENA : 0;
    if (!par && a - base + n <= ARENA) {
        const uint8_t* st = R->state[ar] + (a - base);
        size_t i = 0; bool good = true;
        for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, st + i, 8); good &= w == 0x0101010101010101ull; }
        for (; i < n; ++i) good &= st[i] == 1;
        if (good) return;
    }
    for (size_t i = 0; i < n; ++i) {
        Cell* c;
        if (ar >= 0) {
            size_t off = a + i - base;
            uint8_t st = off < ARENA ? R->state[ar][off] : 0;
            if (st == 2) fail("use after free: %s of %zu bytes by thread %d", write ? "write" : "read", n, t);
            if (st == 0) fail("heap out-of-bounds %s of %zu bytes by thread %d", write ? "write" : "read", n, t);
            if (!par) continue;
            c = &R->cells[ar][off];
            if (c->gen != R->gen) { memset(c, 0, sizeof *c); c->gen = R->gen; }
        } else {
            c = gcell(a + i);
            if (!c) return;
        }
        // prior plain write
        if (c->w) { int u = c->w & 7; if (u != t && (c->w >> 3) > vc.c[u]) fail("data race: %s%s by thread %d is unordered with an earlier write by thread %d", atomic ? "atomic " : "", write ? "write" : "read", t, u); }
        if (!atomic && c->aw) { int u = c->aw & 7; if (u != t && (c->aw >> 3) > vc.c[u]) fail("data race: plain %s by thread %d is unordered with an atomic write by thread %d", write ? "write" : "read", t, u); }
        if (write) {
            for (int u = 0; u < MC_MAXT; ++u) {
                if (u == t) continue;
                if (c->r[u] > vc.c[u]) fail("data race: %swrite by thread %d is unordered with an earlier read by thread %d", atomic ? "atomic " : "", t, u);
                if (!atomic && c->ar[u] > vc.c[u]) fail("data race: write by thread %d is unordered with an atomic read by thread %d", t, u);
            }
            (atomic ? c->aw : c->w) = vc.c[t] * 8 + t;
        } else {
            (atomic ? c->ar : c->r)[t] = vc.c[t];
        }
    }
}

// ---------------------------------------------------------------- dependency relation
inline bool overlap(const Op& x, const Op& y) { return x.a < y.a + y.len && y.a < x.a + x.len; }
inline bool is_mutex(Kind k) { return k >= K_LOCK && k <= K_RDUNLOCK; }
bool dependent(const Op& x, const Op& y)
{
    if (x.k == K_NONE || y.k == K_NONE) return false;
    if (x.k == K_BEGIN || x.k == K_END || y.k == K_BEGIN || y.k == K_END)
        return (x.k == K_BEGIN && y.k == K_END) || (x.k == K_END && y.k == K_BEGIN);
    if (x.k == K_YIELD || y.k == K_YIELD || x.k == K_FENCE || y.k == K_FENCE) return false;
    if (is_mutex(x.k) != is_mutex(y.k)) return false;
    if (is_mutex(x.k)) {
        if (x.a != y.a) return false;
        if ((x.k == K_RDLOCK || x.k == K_RDUNLOCK) && (y.k == K_RDLOCK || y.k == K_RDUNLOCK)) return false;
        return true;
    }
    if (x.k == K_READ && y.k == K_READ) return false;
    return overlap(x, y);
}
// Can the two operations, executed in this order by different threads, be reversed?
bool reversible(const Op& x, const Op& y)
{
    // a lock waits for the unlock before it
    if ((x.k == K_UNLOCK || x.k == K_RDUNLOCK) && (y.k == K_LOCK || y.k == K_RDLOCK)) return false;
    if ((x.k == K_UNLOCK && y.k == K_UNLOCK)) return false;
    return true;
}

bool op_enabled(int t)
{
    Fiber& f = R->f[t];
    if (f.finished) return false;
    if (f.pending.k == K_LOCK) {
        Mutex* m = mutexvar(f.pending.a);
        return (m->owner < 0 && m->readers == 0) || (m->owner == t && m->recursive);
    }
    if (f.pending.k == K_RDLOCK) { Mutex* m = mutexvar(f.pending.a); return m->owner < 0; }
    if (f.spin_wait && f.spin_ver == R->ver) return false;
    return true;
}

const char* where(const Op& o, char* buf, size_t n)
{
    int ar = o.a ? arena_of(o.a) : -1;
    if (ar >= 0) snprintf(buf, n, "heap%d+%#lx/%d", ar, (unsigned long)(o.a - (uintptr_t)R->arena[ar]), o.len);
    else snprintf(buf, n, "%#lx/%d", (unsigned long)o.a, o.len);
    return buf;
}

// choose the thread to run next; called when the current thread stands before its pending op,
// or when it has finished.  Switches.
extern "C" void fiber_main();

void switch_to(int t)
{
    int s = R->cur;
    if (s == t) return;
    save_ctx(R->f[s]);
    R->cur = t;
    load_ctx(R->f[t]);
    mc_switch(&R->f[s].sp, R->f[t].sp);
}

void record_event(int t);

void schedule()
{
    // compute enabled set
    int n = R->prog->nthreads;
    uint8_t en = 0; bool alive = false; bool spinning = false;
    for (int t = 1; t <= n; ++t) {
        if (!R->f[t].finished) alive = true;
        if (op_enabled(t)) en |= 1 << t;
        else if (!R->f[t].finished && R->f[t].spin_wait) spinning = true;
    }
    if (!alive) { switch_to(0); return; }
    if (!en && spinning) fail("livelock: every remaining thread spins without progress");
    if (!en) {
        char b[400]; int k = 0; char w[64];
        for (int t = 1; t <= n; ++t) if (!R->f[t].finished)
            k += snprintf(b + k, sizeof b - k, " thread %d waits at %s %s (held by %d);", t, kname(R->f[t].pending.k), where(R->f[t].pending, w, sizeof w), mutexvar(R->f[t].pending.a)->owner);
        fail("deadlock:%s", b);
    }
    int i = R->nev;
    if (i >= MAXE - 1) fail("livelock: more than %d visible operations", MAXE);
    int choice = -1;
    if (R->free_replay) {
        if (i < R->rn) { choice = R->rsched[i]; if (choice < 1 || choice > n || !(en >> choice & 1)) { R->diverged = true; leave_execution(); } }
        else { choice = (R->cur >= 1 && (en >> R->cur & 1)) ? R->cur : __builtin_ctz(en); }
    } else if (i < R->replay_len) {
        Node& nd = R->nodes[i];
        choice = nd.chosen;
        bool same = nd.enabled == en;
        for (int t = 1; t <= n && same; ++t) same = R->f[t].finished || (nd.pend[t].k == R->f[t].pending.k && nd.pend[t].a == R->f[t].pending.a && nd.pend[t].len == R->f[t].pending.len);
        if (!same || !(en >> choice & 1)) { fprintf(stderr, "mc: divergence at step %d: enabled %x was %x\n", i, en, nd.enabled); for (int t = 1; t <= n; ++t) fprintf(stderr, "  thread %d %s %lx was %s %lx\n", t, kname(R->f[t].pending.k), (long)R->f[t].pending.a, kname(nd.pend[t].k), (long)nd.pend[t].a); R->diverged = true; leave_execution(); }
    } else {
        Node& nd = R->nodes[i];
        memset(&nd, 0, sizeof nd);
        nd.enabled = en;
        for (int t = 1; t <= n; ++t) nd.pend[t] = R->f[t].finished ? Op{K_NONE, 0, 0} : R->f[t].pending;
        if (i > 0) {
            Node& pn = R->nodes[i - 1];
            Op po = pn.pend[(int)pn.chosen];
            uint8_t z = (pn.sleep | pn.done) & ~(1 << pn.chosen);
            if (R->naive != 1) for (int t = 1; t <= n; ++t) if (z >> t & 1) if (!dependent(pn.pend[t], po)) nd.sleep |= 1 << t;
        }
        uint8_t cand = en & ~nd.sleep;
        if (!cand) { R->sleep_blocked = true; R->nnodes = i; leave_execution(); }
        choice = (R->cur >= 1 && (cand >> R->cur & 1)) ? R->cur : __builtin_ctz(cand);
        nd.chosen = choice;
        nd.backtrack = R->naive ? en : 1 << choice;
        R->nnodes = i + 1;
    }
    record_event(choice);
    switch_to(choice);
}

void record_event(int t)
{
    Event& e = R->ev[R->nev];
    Fiber& f = R->f[t];
    e.tid = t; e.op = f.pending; e.tindex = ++f.tindex;
    VC c = f.dvc; c.c[t] = e.tindex;
    for (int j = 0; j < R->nev; ++j) {
        Event& d = R->ev[j];
        if (d.tid != t && c.c[d.tid] < d.tindex && dependent(d.op, e.op)) vjoin(c, d.vc);
    }
    e.vc = c; f.dvc = c;
    if (R->verbose) { char w[64]; printf("  %4d thread %d %-10s %s\n", R->nev, t, kname(e.op.k), where(e.op, w, sizeof w)); }
    R->nev++;
}

// A visible operation: wait to be scheduled, then the caller performs it.
void visible(Kind k, uintptr_t a, int len)
{
    if (!R->sched_on || R->cur == 0) return;
    Fiber& f = R->f[R->cur];
    f.pending = Op{k, (uint8_t)len, a};
    if (k == K_READ || k == K_WRITE) {
        if (f.spin_a == a) { if (++f.spin > 64) { f.spin_wait = 1; f.spin_ver = R->ver; } }
        else { f.spin_a = a; f.spin = 0; f.spin_wait = 0; }
    } else if (k != K_YIELD) { f.spin = 0; f.spin_a = 0; f.spin_wait = 0; }
    schedule();
    f.vc.c[R->cur]++;
    f.spin_wait = 0;
}

extern "C" void fiber_main()
{
    int t = R->cur;
    R->prog->thread(R->prog->arg, t);
    R->f[t].finished = true;
    R->f[t].pending = Op{K_NONE, 0, 0};
    if (R->f[t].tindex == 0 && R->nev == 0) { /* finished without any visible operation */ }
    schedule();
    abort();
}

// ---------------------------------------------------------------- running one execution
void reset_memory()
{
    for (int t = 0; t < MC_MAXT; ++t) {
        memset(R->state[t], 0, R->bump[t]);
        R->bump[t] = 64;
    }
    R->nblocks = 0; R->live = 0;
    R->gen++;
}

void on_signal(int sig)
{
    if (R && R->active) {
        sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
        fail("crash: signal %d (%s) in thread %d", sig, strsignal(sig), R->cur);
    }
    signal(sig, SIG_DFL); raise(sig);
}
void on_terminate()
{
    if (R && R->active) fail("std::terminate called in thread %d (exception left a noexcept function or was not caught)", R->cur);
    abort();
}

void run_execution(const mc_program* p)
{
    memcpy(R->snap_at, R->snap, R->snap_n);
    reset_memory();
    R->exec_no++;
    R->prog = p; R->failed = false; R->msg[0] = 0; R->sleep_blocked = R->diverged = false;
    R->nev = 0; R->nnodes = R->replay_len; R->cur = 0; R->quiet = 0; R->ver = 0;
    for (int t = 0; t < MC_MAXT; ++t) {
        Fiber& f = R->f[t];
        char* st = f.stack;
        memset(&f, 0, offsetof(Fiber, tls));
        f.stack = st;
        f.spin = 0; f.spin_a = 0; f.spin_wait = 0;
        if (R->tls_n) memcpy(f.tls, R->tls_init, R->tls_n);
        f.vc.c[t] = 1;
    }
    if (R->tls_n) memcpy(R->tls_at, R->tls_init, R->tls_n);
    uint64_t eh[2]; memset(eh, 0, 16); memcpy(__cxa_get_globals(), eh, 16);
    jmp_buf jb; R->fail_jb = &jb;
    if (setjmp(jb)) { memcpy(__cxa_get_globals(), eh, 16); R->active = R->sched_on = false; R->cur = 0; return; }
    R->active = true;
    p->setup(p->arg);
    // run each worker to its first visible operation
    for (int t = 1; t <= p->nthreads; ++t) {
        Fiber& f = R->f[t];
        vjoin(f.vc, R->f[0].vc);
    }
    R->f[0].vc.c[0]++;
    // start: each worker has a pseudo operation as its pending one
    for (int t = 1; t <= p->nthreads; ++t) {
        Fiber& f = R->f[t];
        uintptr_t* sp = (uintptr_t*)(f.stack + (256 << 10));
        sp -= 2; *--sp = (uintptr_t)0; *--sp = (uintptr_t)fiber_main;
        for (int i = 0; i < 6; ++i) *--sp = 0;
        f.sp = sp;
        f.pending = Op{K_YIELD, 0, 0};
        memset(f.eh, 0, 16);
    }
    R->sched_on = true;
    if (p->nthreads) schedule();        // returns here (thread 0) when all workers are finished
    R->sched_on = false;
    for (int t = 1; t <= p->nthreads; ++t) vjoin(R->f[0].vc, R->f[t].vc);
    R->f[0].vc.c[0]++;
    p->finish(p->arg);
    if (R->live) fail("memory leak: %zu heap block(s) still allocated at the end", R->live);
    R->active = false;
    const char* complaint = p->check ? p->check(p->arg) : nullptr;
    if (complaint) { R->failed = true; snprintf(R->msg, sizeof R->msg, "%s", complaint); }
}

// race analysis of the last execution (source-DPOR): extend backtrack sets
void analyse(int from)
{
    int n = R->prog->nthreads;
    for (int j = from < 0 ? 0 : from; j < R->nev; ++j) {
        Event& e = R->ev[j];
        // clock of e's thread before e
        VC c; memset(&c, 0, sizeof c);
        for (int k = j - 1; k >= 0; --k) if (R->ev[k].tid == e.tid) { c = R->ev[k].vc; break; }
        // Walk backwards over events dependent with e and not yet ordered before it.
        for (int i = j - 1; i >= 0; --i) {
            Event& d = R->ev[i];
            if (d.tid == e.tid) continue;
            if (d.tindex <= c.c[d.tid]) continue;
            if (!dependent(d.op, e.op)) continue;
            bool rev = reversible(d.op, e.op);
            if (!rev) {
                // unlock->lock: the race is with the matching earlier lock; do not let the unlock
                // hide it (the clock is not joined), the loop reaches the lock event itself.
                continue;
            }
            // d, e race.  v = events after d not happening after d, then e.
            uint8_t initials = 0, seen = 0;
            VC pre; (void)pre;
            for (int k = i + 1; k <= j; ++k) {
                Event& x = R->ev[k];
                if (k < j && x.vc.c[d.tid] >= d.tindex) continue;      // happens after d
                if (seen >> x.tid & 1) continue;
                seen |= 1 << x.tid;
                bool init = true;
                for (int m = i + 1; m < k && init; ++m) {
                    Event& y = R->ev[m];
                    if (y.tid == x.tid) continue;
                    if (y.vc.c[d.tid] >= d.tindex) continue;            // not in v
                    // y happens before x ? (for e itself, use the clock it has without d)
                    if (k < j) { if (x.vc.c[y.tid] >= y.tindex) init = false; }
                    else { if (c.c[y.tid] >= y.tindex || (dependent(y.op, e.op) && !(0))) init = false; }
                }
                if (init) initials |= 1 << x.tid;
            }
            Node& nd = R->nodes[i];
            if (!(initials & nd.backtrack)) {
                uint8_t pick = initials & nd.enabled;
                if (!pick) nd.backtrack |= nd.enabled;                 // conservative
                else if (pick >> e.tid & 1) nd.backtrack |= 1 << e.tid;
                else nd.backtrack |= 1 << __builtin_ctz(pick);
            }
            vjoin(c, d.vc);
        }
    }
    (void)n;
}

} // namespace

// ------------------------------------------------------------------------------------------ interface
extern "C" void mc_init(void)
{
    R = (RT*)mmap(nullptr, sizeof(RT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return (char*)p; };
    char* a = map(ARENA * MC_MAXT);
    for (int t = 0; t < MC_MAXT; ++t) {
        R->arena[t] = a + t * ARENA; R->bump[t] = 64;
        R->cells[t] = (Cell*)map(ARENA * sizeof(Cell));
        R->state[t] = (uint8_t*)map(ARENA);
    }
    char* stacks = map((256 << 10) * MC_MAXT);
    for (int t = 0; t < MC_MAXT; ++t) {
        R->f[t].stack = stacks + (t == 0 ? MC_MAXT - 1 : t - 1) * (256 << 10);
        if (t) mprotect(R->f[t].stack, 4096, PROT_NONE);
    }
    R->g = (GCell*)map(GH * sizeof(GCell));
    R->sv = (SyncVar*)map(SH * sizeof(SyncVar));
    R->mx = (Mutex*)map(SH * sizeof(Mutex));
    R->blocks = (Block*)map(65536 * sizeof(Block));
    R->gen = 1;
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* sa; size_t sn; pthread_attr_getstack(&at, &sa, &sn); pthread_attr_destroy(&at);
    R->main_lo = (char*)sa; R->main_hi = (char*)sa + sn;
    __libc_single_threaded = 0;
    stack_t ss; ss.ss_sp = map(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa2; memset(&sa2, 0, sizeof sa2); sa2.sa_handler = on_signal; sa2.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP};
    for (int s : sigs) sigaction(s, &sa2, nullptr);
    std::set_terminate(on_terminate);
    // thread-local variables of the executable (each fiber gets its own copy)
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
            size_t n = i->dlpi_phdr[k].p_memsz;
            if (n <= sizeof(Fiber::tls) && i->dlpi_tls_data) { R->tls_n = n; R->tls_at = (char*)i->dlpi_tls_data; R->tls_init = (char*)malloc(n); memcpy(R->tls_init, R->tls_at, n); }
        }
        return 1; // only the executable
    }, nullptr);
    // globals of the executable are restored before every execution
    R->snap_at = &__data_start; R->snap_n = &_end - &__data_start;
    R->snap = (char*)malloc(R->snap_n);
    memcpy(R->snap, R->snap_at, R->snap_n);
}

extern "C" void mc_explore(const mc_program* p0, uint64_t max_exec, mc_stats* out)
{
    mc_program p = *p0; // the caller's copy may live in the restored range
    mc_stats* o = out;
    memset(o, 0, sizeof *o);
    memcpy(R->snap, R->snap_at, R->snap_n);
    R->free_replay = false; R->replay_len = 0; R->verbose = false; R->accesses = 0;
    uint64_t execs = 0;
    for (;;) {
        int from = R->replay_len - 1;
        run_execution(&p);
        ++execs;
        o->transitions += R->nev;
        if ((uint64_t)R->nev > o->max_len) o->max_len = R->nev;
        if (R->diverged) { fprintf(stderr, "mc: replay diverged (nondeterministic program)\n"); _exit(3); }
        if (R->failed) {
            o->executions++;
            snprintf(o->violation, sizeof o->violation, "%s", R->msg);
            o->schedule_len = R->nev;
            for (int i = 0; i < R->nev; ++i) o->schedule[i] = R->ev[i].tid;
            o->accesses = R->accesses;
            return;
        }
        if (R->sleep_blocked) o->blocked++; else o->executions++;
        o->states += R->nnodes - (from < 0 ? 0 : from);
        if (!R->naive) analyse(from);
        // next branch
        int i = R->nnodes - 1;
        for (; i >= 0; --i) {
            Node& nd = R->nodes[i];
            nd.done |= 1 << nd.chosen;
            uint8_t cand = nd.backtrack & ~nd.done & ~nd.sleep & nd.enabled;
            if (cand) { nd.chosen = __builtin_ctz(cand); break; }
        }
        if (i < 0) { o->complete = true; break; }
        R->replay_len = i + 1;
        if (execs >= max_exec) break;
    }
    o->accesses = R->accesses;
}

extern "C" bool mc_replay(const mc_program* p0, const int* sched, int n, bool verbose, mc_stats* out)
{
    mc_program p = *p0;
    memset(out, 0, sizeof *out);
    memcpy(R->snap, R->snap_at, R->snap_n);
    R->free_replay = true; R->rsched = sched; R->rn = n; R->replay_len = 0; R->verbose = verbose;
    run_execution(&p);
    R->free_replay = false; R->verbose = false;
    out->executions = 1; out->transitions = R->nev;
    out->schedule_len = R->nev;
    for (int i = 0; i < R->nev; ++i) out->schedule[i] = R->ev[i].tid;
    if (R->diverged) { snprintf(out->violation, sizeof out->violation, "DIVERGED"); return false; }
    if (R->failed) snprintf(out->violation, sizeof out->violation, "%s", R->msg);
    return R->failed;
}

namespace {
void on_tick(int)
{
    // CPU time has passed: an execution takes microseconds, so one that is still running hangs
    if (R->active && R->tick_exec == R->exec_no) {
        sigset_t s; sigemptyset(&s); sigaddset(&s, SIGVTALRM); sigprocmask(SIG_UNBLOCK, &s, nullptr);
        fail("hang: thread %d runs without reaching a synchronisation operation or the end", R->cur);
    }
    R->tick_exec = R->exec_no;
}
}
extern "C" int mc_shared_next(int* c) { return __sync_fetch_and_add(c, 1); }   // here: not instrumented

extern "C" void mc_watchdog(void)
{
    stack_t ss; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
    itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 4; it.it_interval.tv_usec = it.it_value.tv_usec = 0; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
extern "C" void mc_naive(int on) { R->naive = on; }
extern "C" int mc_self(void) { return R->cur; }
extern "C" uint64_t mc_now(void) { return R->nev; }
extern "C" void mc_api_begin(void) { visible(K_BEGIN, 0, 0); }
extern "C" void mc_api_end(void) { visible(K_END, 0, 0); }
extern "C" void mc_fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); violation(fmt, ap); }
extern "C" size_t mc_live_blocks(void) { return R->live; }
extern "C" void mc_quiet(int on) { R->quiet += on ? 1 : -1; }

// ------------------------------------------------------------------------------------------ heap
namespace {
void* rt_alloc(size_t n, size_t align)
{
    if (!R || !R->active) { void* p = nullptr; if (align <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, align, n)) p = nullptr; return p; }
    int t = R->cur;
    size_t at = (R->bump[t] + align - 1) & ~(align - 1);
    if (at < R->bump[t] + 16) at += align > 16 ? align : 16;
    size_t end = (at + (n ? n : 1) + 31) & ~(size_t)15;
    if (end >= ARENA) fail("heap arena exhausted by thread %d (unbounded allocation)", t);
    R->bump[t] = end;
    memset(R->state[t] + at, 1, n ? n : 1);
    char* p = R->arena[t] + at;
    // header-less: find by block table
    if (R->nblocks >= 65536) fail("too many allocations");
    R->blocks[R->nblocks++] = Block{(uintptr_t)p, n ? n : 1, false};
    R->live++;
    memset(p, 0xA5, n);
    return p;
}
void rt_free(void* q)
{
    if (!q) return;
    uintptr_t a = (uintptr_t)q;
    if (!R || arena_of(a) < 0) { free(q); return; }
    if (!R->active) return;          // leftovers of an abandoned execution
    int ar = arena_of(a);
    for (int i = R->nblocks - 1; i >= 0; --i) {
        Block& b = R->blocks[i];
        if (b.a != a) continue;
        if (b.freed) fail("double free by thread %d", R->cur);
        int qz = R->quiet; R->quiet = 0;
        access(a, b.n, true, false);     // freeing is a write
        R->quiet = qz;
        b.freed = true; R->live--;
        memset(R->state[ar] + (a - (uintptr_t)R->arena[ar]), 2, b.n);
        memset(q, 0x5A, b.n);
        return;
    }
    fail("free of a pointer that was not allocated, by thread %d", R->cur);
}
}
void* operator new(size_t n) { void* p = rt_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return rt_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return rt_alloc(n, (size_t)a < 16 ? 16 : (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return rt_alloc(n, (size_t)a < 16 ? 16 : (size_t)a); }
void operator delete(void* p) noexcept { rt_free(p); }
void operator delete[](void* p) noexcept { rt_free(p); }
void operator delete(void* p, size_t) noexcept { rt_free(p); }
void operator delete[](void* p, size_t) noexcept { rt_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { rt_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { rt_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { rt_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { rt_free(p); }

// ------------------------------------------------------------------------------------------ locks
namespace {
void do_lock(void* m, bool rec)
{
    if (!R || !R->active) return;
    uintptr_t a = (uintptr_t)m;
    visible(K_LOCK, a, 1);
    access(a, 1, true, true);
    Mutex* x = mutexvar(a);
    x->recursive = rec;
    int t = R->cur;
    if (x->owner == t && rec) { x->depth++; return; }
    if (x->owner >= 0 || x->readers) {
        // only possible outside of the scheduler (setup/finish, single threaded)
        fail("deadlock: thread %d locks a mutex that thread %d holds", t, x->owner);
    }
    x->owner = t; x->depth = 1;
    vjoin(R->f[t].vc, x->rel); vjoin(R->f[t].vc, x->rrel);
}
bool do_trylock(void* m, bool rec)
{
    if (!R || !R->active) return true;
    uintptr_t a = (uintptr_t)m;
    visible(K_TRYLOCK, a, 1);
    access(a, 1, true, true);
    Mutex* x = mutexvar(a);
    x->recursive = rec;
    int t = R->cur;
    if (x->owner == t && rec) { x->depth++; return true; }
    if (x->owner >= 0 || x->readers) return false;
    x->owner = t; x->depth = 1;
    vjoin(R->f[t].vc, x->rel); vjoin(R->f[t].vc, x->rrel);
    return true;
}
void do_unlock(void* m)
{
    if (!R || !R->active) return;
    uintptr_t a = (uintptr_t)m;
    Mutex* x = mutexvar(a);
    int t = R->cur;
    visible(x->owner == t || x->owner >= 0 ? K_UNLOCK : K_RDUNLOCK, a, 1);
    access(a, 1, true, true);
    if (x->owner >= 0) {
        if (x->owner != t) fail("thread %d unlocks a mutex held by thread %d", t, x->owner);
        if (--x->depth) return;
        x->owner = -1;
        vjoin(x->rel, R->f[t].vc);
    } else if (x->readers > 0) {
        x->readers--;
        vjoin(x->rrel, R->f[t].vc);
    } else fail("thread %d unlocks a mutex that is not locked", t);
    R->f[t].vc.c[t]++;
    R->ver++;
}
bool do_rdlock(void* m, bool wait)
{
    if (!R || !R->active) return true;
    uintptr_t a = (uintptr_t)m;
    visible(wait ? K_RDLOCK : K_TRYLOCK, a, 1);
    access(a, 1, true, true);
    Mutex* x = mutexvar(a);
    int t = R->cur;
    if (x->owner >= 0) { if (!wait) return false; fail("deadlock: thread %d read-locks a mutex that thread %d holds", t, x->owner); }
    x->readers++;
    vjoin(R->f[t].vc, x->rel);
    return true;
}
inline bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { do_lock(m, is_rec(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return do_trylock(m, is_rec(m)) ? 0 : EBUSY; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { do_lock(m, is_rec(m)); return 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { do_lock(m, is_rec(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { do_unlock(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { do_rdlock(m, true); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return do_rdlock(m, false) ? 0 : EBUSY; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { do_lock(m, false); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return do_trylock(m, false) ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { do_unlock(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { do_lock((void*)m, false); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) { return do_trylock((void*)m, false) ? 0 : EBUSY; }
int pthread_spin_unlock(pthread_spinlock_t* m) { do_unlock((void*)m); return 0; }
int sched_yield(void) { if (R && R->active && R->sched_on && R->cur) { R->f[R->cur].spin_wait = 1; R->f[R->cur].spin_ver = R->ver; visible(K_YIELD, 0, 0); } return 0; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) { if (R && R->active) { fprintf(stderr, "mc: condition variables are not modelled\n"); _exit(3); } return 0; }
pthread_t pthread_self(void) noexcept { return R && R->active ? (pthread_t)(0x1000 + R->cur) : (pthread_t)__builtin_thread_pointer(); }

// function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
    if (!R || !R->active) return !*(char*)g;
    visible(K_READ, (uintptr_t)g, 1);
    SyncVar* s = syncvar((uintptr_t)g, true);
    if (*(char*)g) { vjoin(R->f[R->cur].vc, s->rel); return 0; }
    int q = R->quiet; R->quiet = 1; do_lock((char*)g + 4, false); R->quiet = q;
    if (*(char*)g) { R->quiet = 1; do_unlock((char*)g + 4); R->quiet = q; vjoin(R->f[R->cur].vc, s->rel); return 0; }
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    if (!R || !R->active) { *(char*)g = 1; return; }
    visible(K_WRITE, (uintptr_t)g, 1);
    *(char*)g = 1;
    vjoin(syncvar((uintptr_t)g, true)->rel, R->f[R->cur].vc);
    int q = R->quiet; R->quiet = 1; do_unlock((char*)g + 4); R->quiet = q;
}
void __cxa_guard_abort(uint64_t* g)
{
    if (!R || !R->active) return;
    int q = R->quiet; R->quiet = 1; do_unlock((char*)g + 4); R->quiet = q;
}

// ------------------------------------------------------------------------------------------ __tsan_*
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, false); } \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, false); } \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, false); } \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, false); } \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, false); } \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, false); } \
    void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, false, false); access((uintptr_t)a, n, true, false); } \
    void __tsan_unaligned_read_write##n(void* a) { access((uintptr_t)a, n, false, false); access((uintptr_t)a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, false); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, false); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, false); }
void __tsan_vptr_update(void** a, void* v) { if (R && R->active && *a == v) { access((uintptr_t)a, 8, false, false); return; } access((uintptr_t)a, 8, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); } return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access((uintptr_t)d, n, true, false); return memset(d, c, n); }
}

namespace {
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void sync_read(uintptr_t a, int n, int mo)
{
    Fiber& f = R->f[R->cur];
    for (int i = 0; i < n; ++i) if (SyncVar* s = syncvar(a + i, false)) { if (acq(mo)) vjoin(f.vc, s->rel); vjoin(f.acq_pend, s->rel); }
}
void sync_write(uintptr_t a, int n, int mo, bool rmw)
{
    Fiber& f = R->f[R->cur];
    if (!rmw) for (int i = 1; i < n; ++i) if (SyncVar* s = syncvar(a + i, false)) memset(&s->rel, 0, sizeof s->rel);
    SyncVar* s = syncvar(a, true);
    const VC& c = rel(mo) ? f.vc : f.rel_fence;
    if (rmw) vjoin(s->rel, c); else s->rel = c;
    f.vc.c[R->cur]++;
    R->ver++;
}
template<class T> struct AtomicOps {
    static bool on() { return R && R->active && !R->quiet; }
    static T load(const volatile T* p, int mo)
    {
        if (on()) { visible(K_READ, (uintptr_t)p, sizeof(T)); access((uintptr_t)p, sizeof(T), false, true); sync_read((uintptr_t)p, sizeof(T), mo); }
        return *p;
    }
    static void store(volatile T* p, T v, int mo)
    {
        if (on()) { visible(K_WRITE, (uintptr_t)p, sizeof(T)); access((uintptr_t)p, sizeof(T), true, true); sync_write((uintptr_t)p, sizeof(T), mo, false); }
        *p = v;
    }
    template<class F> static T rmw(volatile T* p, int mo, F fn)
    {
        if (on()) { visible(K_WRITE, (uintptr_t)p, sizeof(T)); access((uintptr_t)p, sizeof(T), true, true); sync_read((uintptr_t)p, sizeof(T), mo); sync_write((uintptr_t)p, sizeof(T), mo, true); }
        T o = *p; *p = fn(o); return o;
    }
    static bool cas(volatile T* p, T* c, T v, int mo, int fmo)
    {
        if (on()) { visible(K_WRITE, (uintptr_t)p, sizeof(T)); access((uintptr_t)p, sizeof(T), false, true); }
        if (*p == *c) {
            if (on()) { access((uintptr_t)p, sizeof(T), true, true); sync_read((uintptr_t)p, sizeof(T), mo); sync_write((uintptr_t)p, sizeof(T), mo, true); }
            *p = v; return true;
        }
        if (on()) sync_read((uintptr_t)p, sizeof(T), fmo);
        *c = *p; return false;
    }
};
}
extern "C" {
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return AtomicOps<T>::load(a, mo); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { AtomicOps<T>::store(a, v, mo); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return AtomicOps<T>::rmw(a, mo, [v](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return AtomicOps<T>::rmw(a, mo, [v](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return AtomicOps<T>::rmw(a, mo, [v](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return AtomicOps<T>::rmw(a, mo, [v](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return AtomicOps<T>::rmw(a, mo, [v](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return AtomicOps<T>::rmw(a, mo, [v](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return AtomicOps<T>::rmw(a, mo, [v](T o) { return (T)~(o & v); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return AtomicOps<T>::cas(a, c, v, mo, fmo); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return AtomicOps<T>::cas(a, c, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { AtomicOps<T>::cas(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!R || !R->active) return;
    Fiber& f = R->f[R->cur];
    if (acq(mo)) vjoin(f.vc, f.acq_pend);
    if (rel(mo)) f.rel_fence = f.vc;
    f.vc.c[R->cur]++;
}
void __tsan_atomic_signal_fence(int) {}
}
