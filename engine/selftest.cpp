// Self-test of engine T: on small programs the reduced exploration must reach exactly the outcomes
// of an unreduced depth-first search, and planted races, deadlocks and memory errors must be found.
#include "mc.h"
#include <atomic>
#include <mutex>
#include <memory>
#include <vector>
#include <set>
#include <string>
#include <cstdio>
#include <cstring>
#include <cstdlib>

struct Prog {
    const char* name; int n;
    int ops[3][4];            // per thread op codes
    int kind;
};
struct Ctx { const Prog* p; std::set<std::string>* out; struct Sh* sh; char buf[256]; int len; };

struct Sh { std::atomic<int> x{0}, y{0}; std::mutex a, b; int pa = 0, pb = 0; std::shared_ptr<int> sp; int r[4][4]; };

static void setup(void* v) { Ctx* c = (Ctx*)v; mc_quiet(1); c->len = 0; mc_quiet(0); c->sh = new Sh; c->sh->sp = std::make_shared<int>(7); }
static void finish(void* v)
{
    Ctx* c = (Ctx*)v;
    Sh* s = c->sh;
    int l = snprintf(c->buf, sizeof c->buf, "x%d y%d pa%d pb%d |", s->x.load(), s->y.load(), s->pa, s->pb);
    for (int t = 1; t <= c->p->n; ++t) for (int i = 0; i < 4; ++i) l += snprintf(c->buf + l, sizeof c->buf - l, " %d", s->r[t][i]);
    delete c->sh;
}
static const char* check(void* v) { Ctx* c = (Ctx*)v; c->out->insert(c->buf); return nullptr; }
static void thread(void* v, int t)
{
    Ctx* c = (Ctx*)v; Sh* s = c->sh;
    for (int i = 0; i < 4; ++i) {
        int r = 0;
        switch (c->p->ops[t - 1][i]) {
        case 0: break;
        case 1: r = s->x.load(); break;
        case 2: s->x.store(t * 10 + i); break;
        case 3: r = s->x.fetch_add(1); break;
        case 4: r = s->y.load(); break;
        case 5: s->y.store(t * 10 + i); break;
        case 6: { std::lock_guard<std::mutex> l(s->a); r = ++s->pa; } break;
        case 7: { std::lock_guard<std::mutex> l(s->b); r = ++s->pb; } break;
        case 8: { std::lock_guard<std::mutex> l(s->a); std::lock_guard<std::mutex> k(s->b); r = s->pa = s->pb + t; } break;
        case 9: { std::lock_guard<std::mutex> l(s->b); std::lock_guard<std::mutex> k(s->a); r = ++s->pb; } break;
        case 10: if (s->a.try_lock()) { r = ++s->pa; s->a.unlock(); } else r = -1; break;
        case 11: { int e = 0; r = s->x.compare_exchange_strong(e, t); } break;
        case 12: ++s->pa; break;                                      // race
        case 13: s->pa = 1; s->x.store(1, std::memory_order_release); break;
        case 14: if (s->x.load(std::memory_order_acquire) == 1) r = s->pa; break;
        case 15: s->pa = 1; s->x.store(1, std::memory_order_relaxed); break;
        case 16: if (s->x.load(std::memory_order_relaxed) == 1) { std::atomic_thread_fence(std::memory_order_acquire); r = s->pa; } break;
        case 17: { std::shared_ptr<int> k = std::atomic_load(&s->sp); } break;
        case 18: { int* p = new int(3); s->y.store(1); delete p; if (s->x.load() == 11) r = *(volatile int*)p; } break;
        case 19: { s->a.lock(); r = ++s->pa; s->a.unlock(); if (r == 1) s->x.store(5); } break;
        case 20: s->a.lock(); if (s->x.load()) s->a.unlock(); else { s->a.unlock(); r = 2; } break;
        }
        s->r[t][i] = r;
        if (c->p->ops[t - 1][i] == 0) break;
    }
}

int main()
{
    mc_init();
    { auto sp = std::make_shared<int>(1); (void)std::atomic_load(&sp); }   // libstdc++'s lock pool is initialised once
    static const Prog good[] = {
        {"sb", 2, {{2, 4}, {5, 1}}}, {"rw3", 3, {{2, 1}, {2}, {1, 1}}}, {"add3", 3, {{3, 3}, {3}, {3}}},
        {"mutex", 2, {{6, 6}, {6}}}, {"mutex3", 3, {{6}, {6, 7}, {7}}}, {"nest", 2, {{8}, {8, 7}}},
        {"try", 2, {{6, 6}, {10, 10}}}, {"cas", 3, {{11}, {11}, {1, 11}}}, {"mp", 2, {{13}, {14}}},
        {"mix", 2, {{6, 2, 7}, {1, 6, 7}}}, {"mix3", 3, {{6, 2}, {1, 6}, {19}}}, {"cond", 2, {{20, 2}, {2, 20}}},
        {"cond3", 3, {{20}, {2}, {6}}}, {"relfence", 2, {{13}, {16}}}, {"try3", 3, {{6}, {10}, {10, 3}}},
        {"aload", 2, {{17, 3}, {17}}},
    };
    static const struct { Prog p; const char* expect; } bad[] = {
        {{"race", 2, {{12}, {12}}}, "data race"}, {{"race2", 2, {{6}, {12}}}, "data race"}, {{"relaxed", 2, {{15}, {14}}}, "data race"},
        {{"abba", 2, {{8}, {9}}}, "deadlock"}, {{"uaf", 2, {{18}, {0}}}, ""}, {{"uaf2", 2, {{2, 18}, {3}}}, "use after free"},
    };
    bool ok = true; unsigned long tot = 0, totn = 0;
    mc_stats* st = (mc_stats*)malloc(sizeof(mc_stats));
    for (auto& g : good) {
        std::set<std::string> a, b;
        Ctx c{&g, &a};
        mc_program p{g.n, setup, thread, finish, check, &c};
        mc_naive(0); mc_explore(&p, 1 << 22, st);
        unsigned long e1 = st->executions, bl = st->blocked; bool v = st->violation[0]; bool comp = st->complete;
        if (v) printf("  %s: unexpected violation %s\n", g.name, st->violation);
        c.out = &b;
        mc_naive(1); mc_explore(&p, 1 << 22, st); mc_naive(0);
        bool same = a == b && !v && comp && st->complete;
        printf("%-9s reduced %6lu (+%lu blocked) full %8lu outcomes %3zu/%3zu %s\n", g.name, e1, bl, (unsigned long)st->executions, a.size(), b.size(), same ? "ok" : "MISMATCH");
        tot += e1; totn += st->executions;
        ok &= same;
    }
    for (auto& g : bad) {
        std::set<std::string> a;
        Ctx c{&g.p, &a};
        mc_program p{g.p.n, setup, thread, finish, check, &c};
        mc_explore(&p, 1 << 22, st);
        bool found = g.expect[0] ? strstr(st->violation, g.expect) != nullptr : !st->violation[0];
        char first[1024]; strcpy(first, st->violation);
        bool rep = true;
        if (g.expect[0]) { int n = st->schedule_len; std::vector<int> s(st->schedule, st->schedule + n); rep = mc_replay(&p, s.data(), n, false, st) && !strcmp(first, st->violation); }
        printf("%-9s %s: %s\n", g.p.name, found && rep ? "ok" : "MISSED", first);
        ok &= found && rep;
    }
    printf("SELFTEST %s reduced=%lu full=%lu\n", ok ? "ok" : "FAILED", tot, totn);
    return ok ? 0 : 3;
}
