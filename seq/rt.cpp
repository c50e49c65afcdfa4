#include "rt.h"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
enum { MAXT = 4096, MAXW = 64, PFX = 16, MAXTASK = 1 << 20 };
struct W {
    int val[MAXT], cnt[MAXT]; int len;        // the current execution
    uint64_t exec, ops, nodes, maxlen; int violated; char msg[600]; char sample[6000]; int sample_len;
};
struct Task { uint8_t n; uint8_t v[PFX]; };
struct Shared { int next, ntasks, stop, planned, planning, overflow; W w[MAXW]; Task t[MAXTASK]; };
Shared* sh;
W* me;
int pos, plan_depth;
bool replay_mode, sampling;
volatile uint64_t beats;
char* notebuf; int notelen; const int NOTECAP = 6000;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
[[noreturn]] void leave(int code) { _exit(code); }

void on_timer(int)
{
    static uint64_t last; static int same;
    if (beats == last) { if (++same >= 3) { if (!me->violated) { me->violated = 1; snprintf(me->msg, sizeof me->msg, "the execution does not end (deadlock or endless loop)"); } leave(10); } }
    else { last = beats; same = 0; }
}
void watchdog()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_timer; sigaction(SIGALRM, &sa, nullptr);
    itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 20; it.it_interval.tv_usec = it.it_value.tv_usec = 0; setitimer(ITIMER_REAL, &it, nullptr);
}

long g_live; int g_quiet;
}

int choose(int n)
{
    if (n <= 1) return 0;
    int i = pos++;
    if (i >= MAXT) { fprintf(stderr, "too many choices\n"); abort(); }
    if (i < me->len) { if (replay_mode && me->val[i] >= n) me->val[i] = n - 1; me->cnt[i] = n; return me->val[i]; }
    me->val[i] = 0; me->cnt[i] = n; me->len = i + 1; me->nodes++;
    return 0;
}
bool replaying() { return replay_mode; }
void step() { me->ops++; }
void note(const char* fmt, ...)
{
    if (!replay_mode && !sampling) return;
    va_list ap; va_start(ap, fmt);
    if (replay_mode) { vprintf(fmt, ap); fflush(stdout); }
    else if (notelen < NOTECAP - 1) { int k = vsnprintf(notebuf + notelen, NOTECAP - notelen, fmt, ap); if (k > 0) notelen = notelen + k < NOTECAP - 1 ? notelen + k : NOTECAP - 1; }
    va_end(ap);
}
void fail(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, ap); va_end(ap);
    me->violated = 1;
    if (replay_mode) { printf("RESULT: %s\n", me->msg); fflush(stdout); leave(1); }
    leave(10);
}

// ---- interposition: a lock that is already held by the only thread is a deadlock
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    int r = pthread_mutex_trylock(m);
    if (r == EBUSY) { if (me) fail("deadlock: a mutex is locked again by the thread that holds it"); abort(); }
    return r;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    int r = pthread_rwlock_trywrlock(m);
    if (r == EBUSY || r == EDEADLK) { if (me) fail("deadlock: a lock is taken again by the thread that holds it"); abort(); }
    return r;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    int r = pthread_rwlock_tryrdlock(m);
    if (r == EBUSY || r == EDEADLK) { if (me) fail("deadlock: a lock is taken again by the thread that holds it"); abort(); }
    return r;
}

// ---- heap
bool (*fault_point)();
long live_allocs() { return g_live; }
void allocs_quiet(int d) { g_quiet += d; }
static void* alloc(size_t n)
{
    if (fault_point && !g_quiet) { auto f = fault_point; if (f()) throw std::bad_alloc(); }
    void* p = malloc(n + 16);
    if (!p) { fprintf(stderr, "out of memory\n"); abort(); }
    *(size_t*)p = g_quiet ? 0x11 : 0x22; if (!g_quiet) ++g_live;
    return (char*)p + 16;
}
static void dealloc(void* q) noexcept
{
    if (!q) return;
    char* p = (char*)q - 16;
    size_t tag = *(size_t*)p;
    if (tag == 0x22) --g_live;
    *(size_t*)p = 0;
    free(p);
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }

static void one(const SuiteS* s, bool th)
{
    pos = 0; g_quiet = 0; g_live = 0; fault_point = nullptr; notelen = 0;
    s->run(th);
    beats = beats + 1;
    me->exec++;
    if ((uint64_t)pos > me->maxlen) me->maxlen = pos;
    me->len = pos;
}

// next vector of choices whose first `fixed` entries stay; false when exhausted
static bool advance(int fixed)
{
    int i = me->len - 1;
    while (i >= fixed && me->val[i] + 1 >= me->cnt[i]) --i;
    if (i < fixed) return false;
    me->val[i]++; me->len = i + 1;
    me->nodes++;
    return true;
}


int rt_main(int argc, char** argv, const SuiteS* suites, int n)
{
    if (argc < 4) { fprintf(stderr, "usage: run SUITE TIER NWORKERS SECONDS OUTDIR | replay SUITE TIER CHOICE...\n"); return 2; }
    const SuiteS* s = nullptr;
    for (int i = 0; i < n; ++i) if (!strcmp(suites[i].name, argv[2])) s = &suites[i];
    if (!s) { fprintf(stderr, "no suite %s\n", argv[2]); return 2; }
    bool th = !strcmp(argv[3], "thorough");
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    static char nb[NOTECAP]; notebuf = nb;
    if (!strcmp(argv[1], "replay")) {
        me = &sh->w[0]; replay_mode = true; watchdog();
        for (int i = 4; i < argc; ++i) me->val[me->len++] = atoi(argv[i]);
        one(s, th);
        printf("RESULT: no violation\n");
        return 0;
    }
    int nw = atoi(argv[4]); double secs = atof(argv[5]); const char* dir = argv[6];
    if (nw > MAXW - 1) nw = MAXW - 1;
    double t0 = now();
    auto redirect = [&](int w) { char p[600]; snprintf(p, sizeof p, "%s/err%d.txt", dir, w); if (!freopen(p, "w", stderr)) _exit(9); setvbuf(stderr, nullptr, _IONBF, 0); };
    auto status = [&](int w, int st) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
        W& x = sh->w[w];
        printf("V"); for (int i = 0; i < x.len; ++i) printf(" %d", x.val[i]); printf("\n");
        if (x.violated) printf("M %s\n", x.msg);
        else if (WIFSIGNALED(st)) printf("M the execution was ended by signal %d (worker %d)\n", WTERMSIG(st), w);
        else printf("M the execution ended the process with status %d (worker %d)\n", WEXITSTATUS(st), w);
        return true;
    };
    // the planner enumerates the prefixes that are the tasks
    pid_t pl = fork();
    if (!pl) {
        redirect(0); watchdog();
        me = &sh->w[0]; me->len = 0;
        for (plan_depth = 1; plan_depth <= PFX; ++plan_depth) {
            int nt = 0; me->len = 0; bool over = false, any = false;
            for (;;) {
                one(s, th);
                int l = me->len < plan_depth ? me->len : plan_depth;
                if (me->len > plan_depth) any = true;
                if (nt >= MAXTASK) { over = true; break; }
                Task& t = sh->t[nt++]; t.n = l; for (int i = 0; i < l; ++i) t.v[i] = (uint8_t)me->val[i];
                me->len = l;
                if (!advance(0)) break;
            }
            if (over) { if (plan_depth == 1) sh->overflow = 1; break; }
            sh->ntasks = nt;
            if (nt >= nw * 24 || !any) break;
        }
        me->exec = me->nodes = me->ops = me->maxlen = 0;
        _exit(0);
    }
    int st = 0; waitpid(pl, &st, 0);
    if (status(0, st)) { printf("STATS exec 0 ops 0 nodes 0 maxlen 0 tasks 0 done 0 complete 0\n"); return 1; }
    pid_t pid[MAXW];
    for (int w = 0; w < nw; ++w) {
        pid[w] = fork();
        if (pid[w]) continue;
        redirect(w); watchdog();
        me = &sh->w[w];
        for (;;) {
            if (sh->stop || now() - t0 > secs) _exit(0);
            int t = __sync_fetch_and_add(&sh->next, 1);
            if (t >= sh->ntasks) break;
            const Task& k = sh->t[t];
            me->len = k.n; for (int i = 0; i < k.n; ++i) { me->val[i] = k.v[i]; me->cnt[i] = 1 << 30; }
            uint64_t c = 0;
            for (;;) {
                sampling = (c == 0 && t % 7 == 3) && me->sample_len < 1;
                one(s, th);
                if (sampling) { sampling = false; memcpy(me->sample, notebuf, notelen); me->sample[notelen] = 0; me->sample_len = notelen; }
                if ((++c & 63) == 0 && (sh->stop || now() - t0 > secs)) _exit(0);
                if (!advance(k.n)) break;
            }
            __sync_fetch_and_add(&sh->planned, 1);
        }
        _exit(0);
    }
    int bad = 0;
    for (int k = 0; k < nw; ++k) {
        int s2 = 0; pid_t p = wait(&s2); int w = -1;
        for (int i = 0; i < nw; ++i) if (pid[i] == p) w = i;
        if (w < 0) { --k; continue; }
        if (status(w, s2)) { bad = 1; sh->stop = 1; break; }
    }
    if (bad) for (int w = 0; w < nw; ++w) kill(pid[w], SIGKILL);
    uint64_t e = 0, o = 0, nd = 0, ml = 0;
    for (int w = 0; w < nw; ++w) { e += sh->w[w].exec; o += sh->w[w].ops; nd += sh->w[w].nodes; if (sh->w[w].maxlen > ml) ml = sh->w[w].maxlen; }
    printf("STATS exec %lu ops %lu nodes %lu maxlen %lu tasks %d done %d complete %d\n", (unsigned long)e, (unsigned long)o, (unsigned long)nd, (unsigned long)ml, sh->ntasks, sh->planned, !bad && sh->planned == sh->ntasks && !sh->overflow);
    for (int w = 0; w < nw; ++w) if (sh->w[w].sample_len > 0) { char* c = sh->w[w].sample; printf("SAMPLE "); for (; *c; ++c) putchar(*c == '\n' ? ';' : *c); printf("\n"); }
    return bad;
}
