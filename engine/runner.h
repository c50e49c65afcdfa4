// Command line of the engine-T harnesses: explores the programs of a suite with several processes.
#pragma once
#include "mc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct Suite {
    int n;                                        // programs
    void (*select)(int i, mc_program* p);         // make program i the current one
    void (*print)(FILE* f, int i);
    void (*new_program)(void);                    // resets the oracle
    uint64_t (*histories)(void);
    void (*dump)(FILE* f);                        // history of the last execution
};

// run SUITE TIER NWORKERS MAXEXEC SECONDS OUTDIR | one SUITE TIER INDEX [MAXEXEC] | list | sleep (self-test) | replay SUITE TIER INDEX T T T...
inline int runner_main(int argc, char** argv, Suite S)
{
    const char* mode = argv[1];
    mc_stats* st = (mc_stats*)malloc(sizeof(mc_stats));
    mc_program P;
    if (!strcmp(mode, "list")) { for (int i = 0; i < S.n; ++i) { printf("%d: ", i); S.print(stdout, i); printf("\n"); } return 0; }
    if (!strcmp(mode, "replay")) {
        int idx = atoi(argv[4]);
        if (idx < 0 || idx >= S.n) { fprintf(stderr, "no such program\n"); return 2; }
        int ns = argc - 5; int* sch = (int*)malloc(sizeof(int) * (ns + 1));
        for (int i = 0; i < ns; ++i) sch[i] = atoi(argv[5 + i]);
        S.select(idx, &P);
        printf("program %d: ", idx); S.print(stdout, idx); printf("\nschedule (thread, visible operation, address/size):\n");
        S.new_program();
        bool v = mc_replay(&P, sch, ns, true, st);
        printf("history:\n"); S.dump(stdout);
        printf("RESULT: %s\n", st->violation[0] ? st->violation : "no violation");
        return v ? 1 : 0;
    }
    if (!strcmp(mode, "one")) {       // explores one program: one SUITE TIER INDEX MAXEXEC
        int idx = atoi(argv[4]);
        if (idx < 0 || idx >= S.n) { fprintf(stderr, "no such program\n"); return 2; }
        mc_watchdog();
        S.select(idx, &P); S.new_program();
        mc_explore(&P, argc > 5 ? strtoull(argv[5], nullptr, 10) : 1000000, st);
        printf("program %d: ", idx); S.print(stdout, idx);
        printf("\nexecutions %lu transitions %lu histories %lu complete %d\nRESULT: %s\n", (unsigned long)st->executions, (unsigned long)st->transitions, (unsigned long)S.histories(), st->complete, st->violation[0] ? st->violation : "no violation");
        return st->violation[0] ? 1 : 0;
    }
    bool sleep = !strcmp(mode, "sleep");
    int nw = atoi(argv[4]); uint64_t maxe = strtoull(argv[5], nullptr, 10); double secs = atof(argv[6]); const char* dir = argv[7];
    struct Shared { int next; int cur[64]; } *sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    pid_t pid[64];
    for (int w = 0; w < nw; ++w) {
        pid[w] = fork();
        if (pid[w]) continue;
        char path[512]; snprintf(path, sizeof path, "%s/w%d.txt", dir, w);
        FILE* out = fopen(path, "w"); if (!out) _exit(3);
        setvbuf(out, nullptr, _IOLBF, 0);
        mc_watchdog();
        mc_naive(sleep ? 2 : 0);
        for (;;) {
            int i = mc_shared_next(&sh->next);
            if (i >= S.n) break;
            timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
            if (t.tv_sec - t0.tv_sec > secs) { fprintf(out, "SKIPPED %d\n", i); continue; }
            sh->cur[w] = i + 1;
            S.select(i, &P);
            S.new_program();
            mc_explore(&P, maxe, st);
            fprintf(out, "P %d exec %lu blocked %lu trans %lu states %lu acc %lu len %lu hist %lu complete %d\n", i, (unsigned long)st->executions, (unsigned long)st->blocked, (unsigned long)st->transitions, (unsigned long)st->states, (unsigned long)st->accesses, (unsigned long)st->max_len, (unsigned long)S.histories(), st->complete);
            if (st->violation[0]) {
                // replay before report
                int ns = st->schedule_len; int* s2 = (int*)malloc(sizeof(int) * (ns + 1)); memcpy(s2, st->schedule, sizeof(int) * ns);
                char msg[1024]; snprintf(msg, sizeof msg, "%s", st->violation);
                S.new_program();
                if (!mc_replay(&P, s2, ns, false, st)) fprintf(out, "UNSTABLE %d %s\n", i, msg);
                else {
                    fprintf(out, "V %d", i); for (int k = 0; k < ns; ++k) fprintf(out, " %d", s2[k]); fprintf(out, "\n");
                    fprintf(out, "M %d ", i); S.print(out, i); fprintf(out, " :: %s\n", msg);
                    sh->next = S.n;       // one violation is enough
                }
                free(s2);
            }
            sh->cur[w] = 0;
        }
        fprintf(out, "DONE\n"); fclose(out);
        _exit(0);
    }
    int bad = 0;
    for (int w = 0; w < nw; ++w) {
        int s = 0; waitpid(pid[w], &s, 0);
        if (!WIFEXITED(s) || WEXITSTATUS(s)) { bad = 1; printf("WORKER %d status %d program %d\n", w, s, sh->cur[w] - 1); }
    }
    printf("ALL programs %d\n", S.n);
    return bad ? 3 : 0;
}
