// C19 under engine T: threads own copies of one sig::detail::cow_ptr and read, write, copy, move, assign and
// drop them concurrently.  Each handle must behave as a private value; values are copied only by a write
// while shared, and destroyed exactly once.
#include "signals.hpp"
#include "../engine/runner.h"
#include <vector>

namespace {
using sig::detail::cow_ptr;
using sig::detail::make_cow;
enum CK : uint8_t { NOP, RD, WR, CP, MV, AS, DP, WR1, RD1, SW };
const char* const cname[] = {"-", "read", "write", "copy", "move", "assign-back", "drop", "write-copy", "read-copy", "swap"};
struct CProg { int nt; uint8_t op[3][4]; int mainkeeps; };
CProg* progs; int nprogs, cap;

const int MAGIC = 0x600dc0de;
struct Val;
struct Book { int live; int copies[5]; int hist; };     // bookkeeping, not checked for races
Book* B();
struct Val {
    int v; int magic;
    explicit Val(int x) : v(x), magic(MAGIC) { mc_quiet(1); B()->live++; mc_quiet(0); }
    Val(const Val& o) : v(o.v), magic(o.magic) { if (o.magic != MAGIC) mc_fail("a destroyed value was copied"); mc_quiet(1); B()->live++; B()->copies[mc_self()]++; mc_quiet(0); }
    ~Val() { if (magic != MAGIC) mc_fail("a value was destroyed twice"); magic = 0; mc_quiet(1); B()->live--; mc_quiet(0); }
};
struct State { cow_ptr<Val> h[4][2]; Book b; };
struct Ctx { const CProg* p; State* s; } ctx;
Book* B() { return &ctx.s->b; }

void setup(void*)
{
    ctx.s = (State*)operator new(sizeof(State)); memset((void*)ctx.s, 0, sizeof(State)); new (ctx.s) State();
    State* s = ctx.s;
    cow_ptr<Val> base = make_cow<Val>(1);
    for (int t = 0; t <= ctx.p->nt; ++t) s->h[t][0] = base;
    if (!ctx.p->mainkeeps) s->h[0][0] = cow_ptr<Val>();
    for (int i = 0; i < 5; ++i) if (s->b.copies[i]) mc_fail("copying or moving a copy-on-write pointer copied the value");
}
int rd(const cow_ptr<Val>& h) { const Val& v = h.read(); if (v.magic != MAGIC) mc_fail("a destroyed value was read"); return v.v; }
void thread(void*, int t)
{
    State* s = ctx.s; auto& h = s->h[t][0]; auto& k = s->h[t][1];
    int ref[2] = {1, 0}; bool has[2] = {true, false}; bool sole[2] = {false, false}; bool same = false;  // same: h and k share
    for (int i = 0; i < 4 && ctx.p->op[t - 1][i]; ++i) {
        uint8_t o = ctx.p->op[t - 1][i];
        mc_quiet(1); int c0 = s->b.copies[t]; mc_quiet(0);
        int maxc = 0;
        switch (o) {
        case RD: if (rd(h) != ref[0]) mc_fail("thread %d reads %d through its pointer instead of %d", t, rd(h), ref[0]); break;
        case RD1: if (rd(k) != ref[1]) mc_fail("thread %d reads %d through its copy instead of %d", t, rd(k), ref[1]); break;
        case WR: case WR1: { int x = o == WR1; auto& w = x ? k : h; w.write().v = ref[x] = t * 100 + i; maxc = sole[x] && !same ? 0 : 1; sole[x] = true; if (same) { same = false; } if (rd(w) != ref[x]) mc_fail("a write was lost"); break; }
        case CP: k = h; ref[1] = ref[0]; has[1] = true; same = true; sole[1] = sole[0]; break;     // (soleness is shared by both)
        case MV: k = std::move(h); ref[1] = ref[0]; has[1] = true; has[0] = false; sole[1] = sole[0]; sole[0] = false; same = false; break;
        case AS: h = k; ref[0] = ref[1]; has[0] = true; same = true; sole[0] = sole[1]; break;
        case SW: std::swap(h, k); std::swap(ref[0], ref[1]); std::swap(has[0], has[1]); std::swap(sole[0], sole[1]); break;
        case DP: h = cow_ptr<Val>(); has[0] = false; sole[0] = false; same = false; break;
        }
        mc_quiet(1); int c1 = s->b.copies[t]; mc_quiet(0);
        if (c1 - c0 > maxc) mc_fail("thread %d: %s copied the value %d time(s) (at most %d needed)", t, cname[o], c1 - c0, maxc);
    }
    if (has[0] && rd(h) != ref[0]) mc_fail("thread %d finally reads %d instead of %d", t, rd(h), ref[0]);
    if (has[1] && rd(k) != ref[1]) mc_fail("thread %d finally reads %d through its copy instead of %d", t, rd(k), ref[1]);
}
void finish(void*)
{
    State* s = ctx.s;
    if (ctx.p->mainkeeps && rd(s->h[0][0]) != 1) mc_fail("a write of another thread shows through the original pointer");
    for (auto& a : s->h) for (auto& h : a) h = cow_ptr<Val>();
    if (s->b.live) mc_fail("%d value(s) alive after the last owner is gone", s->b.live);
    s->~State(); operator delete(s);
}
const char* check(void*) { return nullptr; }
bool valid(const CProg& p)
{
    for (int t = 0; t < p.nt; ++t) {
        bool h = true, k = false;
        for (int i = 0; i < 4 && p.op[t][i]; ++i) switch (p.op[t][i]) {
            case RD: case WR: case DP: if (!h) return false; if (p.op[t][i] == DP) h = false; break;
            case RD1: case WR1: if (!k) return false; break;
            case CP: if (!h) return false; k = true; break;
            case MV: if (!h) return false; k = true; h = false; break;
            case AS: if (!k) return false; h = true; break;
            case SW: if (!h || !k) return false; break;
        }
    }
    return true;
}
void add(int nt, const int* len, int keep, int nops)
{
    int idx[3][4] = {};
    for (;;) {
        CProg p; memset(&p, 0, sizeof p); p.nt = nt; p.mainkeeps = keep; bool canon = true;
        for (int t = 0; t < nt; ++t) for (int i = 0; i < len[t]; ++i) p.op[t][i] = 1 + idx[t][i];
        for (int t = 0; t + 1 < nt; ++t) if (len[t] == len[t + 1] && memcmp(idx[t], idx[t + 1], sizeof(int) * len[t]) > 0) canon = false;
        if (canon && valid(p)) { if (nprogs == cap) { cap = cap ? cap * 2 : 256; progs = (CProg*)realloc(progs, cap * sizeof(CProg)); } progs[nprogs++] = p; }
        int t = nt - 1, i = len[t] - 1;
        for (;;) { if (++idx[t][i] < nops) break; idx[t][i] = 0; if (--i < 0) { if (--t < 0) return; i = len[t] - 1; } }
    }
}
void sel(int i, mc_program* p) { ctx.p = &progs[i]; *p = mc_program{progs[i].nt, setup, thread, finish, check, nullptr}; }
void prn(FILE* f, int i) { fprintf(f, "original %s;", progs[i].mainkeeps ? "kept" : "gone"); for (int t = 0; t < progs[i].nt; ++t) { fprintf(f, " T%d:", t + 1); for (int k = 0; k < 4 && progs[i].op[t][k]; ++k) fprintf(f, "%s%s", k ? "," : "", cname[progs[i].op[t][k]]); } }
void nop() {}
uint64_t hist() { return 1; }
void dump(FILE*) {}
}

int main(int argc, char** argv)
{
    mc_init();
    if (argc < 4) return 2;
    bool th = !strcmp(argv[3], "thorough");
    for (int keep = 0; keep < 2; ++keep) {
        int l11[] = {1, 1}, l22[] = {2, 2}, l33[] = {3, 3}, l111[] = {1, 1, 1}, l222[] = {2, 2, 2}, l32[] = {3, 2}, l211[] = {2, 1, 1}, l44[] = {4, 4};
        add(2, l11, keep, 9); add(2, l22, keep, 9); add(3, l111, keep, 9); add(2, l32, keep, 7); add(3, l211, keep, 6);
        if (th) { add(2, l33, keep, 9); add(3, l222, keep, 9); add(2, l44, keep, 4); }
    }
    return runner_main(argc, argv, Suite{nprogs, sel, prn, nop, hist, dump});
}
