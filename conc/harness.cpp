// Runs one program (conc.h) on the real sig::signal under engine T.  Compiled with -fsanitize=thread
// instrumentation; only the public interface of signals.hpp is used.
#include "signals.hpp"
#include "../engine/runner.h"
#include "conc.h"
#include "programs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace {
struct State;
bool in_final(State* s);
struct Ctx { const ProgD* p; State* s; };

struct Fn;
int invoke_body(State* s, int uid, int v);
void destroyed_body(State* s, int uid);

const int MAGIC = 0x51075107;
#ifdef RESULT_VOID
using Res = void;
#define RESULT(r) return
#else
using Res = int;
#define RESULT(r) return (r)
#endif

struct Fn {
    State* s; int uid, grp; int magic; bool counted;
    Fn(State* st, int u, int g, bool c) : s(st), uid(u), grp(g), magic(MAGIC), counted(c) { if (counted) live_add(uid, 1); }
    Fn(const Fn& o) : s(o.s), uid(o.uid), grp(o.grp), magic(o.magic), counted(o.counted) { if (counted) live_add(uid, 1); }
    ~Fn() { if (magic != MAGIC) mc_fail("callable of slot %d destroyed twice", uid); magic = 0; if (counted) { live_add(uid, -1); if (!live_get(uid)) destroyed_body(s, uid); } }
    Fn& operator=(const Fn&) = delete;
    Res operator()(int v) { if (magic != MAGIC) mc_fail("a destroyed callable was invoked"); int r = invoke_body(s, uid, v); if (magic != MAGIC) mc_fail("the callable of slot %d was destroyed while it was running", uid); RESULT(r); }
    bool operator==(const Fn& o) const { if (magic != MAGIC || o.magic != MAGIC) mc_fail("a destroyed callable was compared"); return grp == o.grp; }
};

struct Obj {
    State* s; int uid; int magic;
    Obj(State* st, int u) : s(st), uid(u), magic(MAGIC) { obj_add(uid, 1); }
    Obj(const Obj&) = delete;
    ~Obj() { magic = 0; obj_add(uid, -1); if (!in_final(s)) log_ev(E_DEAD, mc_self(), 0, uid, 0, 0); }
    Res f(int v) { if (magic != MAGIC) mc_fail("a method was called on a destroyed object"); int r = invoke_body(s, uid, v); if (magic != MAGIC) mc_fail("the object of slot %d was destroyed while a method was running on it", uid); RESULT(r); }
};

using Sig = sig::signal<Res(int)>;

struct PerThread {
    sig::connection c[MAXU];
    sig::scoped_connection sc[MAXU];
    sig::connection_blocker b[MAXU];
    std::shared_ptr<Obj> own[MAXU];
};

struct State {
    const ProgD* p;
    Sig* sigs[MAXSIG];
    PerThread th[MAXTH + 1];
    // harness bookkeeping (private to its thread)
    int emit_stack[MAXTH + 1][8]; int depth[MAXTH + 1];
    bool armed, final_phase;
    bool scoped[MAXTH + 1][MAXU];       // the thread's handle of the slot is the scoped one
    std::atomic<int> connected_once;    // an action that connects does so only once
};

bool in_final(State* s) {
    mc_quiet(1); bool r = s->final_phase; mc_quiet(0); return r; }

int do_op(State* s, int t, OpD o);

int invoke_body(State* s, int uid, int v)
{
    mc_quiet(1);
    int t = mc_self();
    int d = s->depth[t];
    int op = d ? s->emit_stack[t][d - 1] : 0;
    bool fin = s->final_phase;
    OpD a = s->p->act[uid];
    int maxd = s->p->maxdepth;
    mc_quiet(0);
    if (fin) { log_evb(E_FINV, uid, s->p->sig[uid]); return 10 + uid; }
    log_ev(E_INV, t, op, uid, 0, v);
    if (a.k != NOP && d <= maxd && (a.k != CONN || s->connected_once.exchange(1) == 0)) do_op(s, t, a);
    mc_api_begin();                    // orders the end of the call against the ends of other operations
    log_ev(E_RET, t, op, uid, 0, 10 + uid);
    return 10 + uid;
}

void destroyed_body(State* s, int uid)
{
    mc_quiet(1);
    bool armed = s->armed && !s->final_phase; OpD a = s->p->dact[uid];
    mc_quiet(0);
    if (armed && a.k != NOP && (a.k != CONN || s->connected_once.exchange(1) == 0)) do_op(s, mc_self(), a);
}

sig::connection connect_slot(State* s, int uid)
{
    const ProgD* p = s->p;
    Sig& g = *s->sigs[p->sig[uid]];
    return g.connect(Fn(s, uid, p->grp[uid], true));
}

int do_op(State* s, int t, OpD o)
{
    mc_quiet(1);
    PerThread& me = s->th[t];
    Sig* g0 = o.k == EMIT || o.k == KILL ? s->sigs[o.a] : s->sigs[0];
    bool viasc = o.a < MAXU && s->scoped[t][o.a];
    mc_quiet(0);
    mc_api_begin();
    int op = log_op(t, o.k, o.a);
    int r = 0, v = -1;
    switch (o.k) {
    case EMIT: {
        mc_quiet(1); s->emit_stack[t][s->depth[t]++] = op; mc_quiet(0);
        auto res = (*g0)(100 + op);
        mc_quiet(1); s->depth[t]--; mc_quiet(0);
#ifdef RESULT_VOID
        if (res) harness_fail(V_SNAPSHOT, "an emission without results returned an engaged optional");
#else
        if (res) { r = 1; v = *res; }
#endif
        break; }
    case CONN: me.c[o.a] = connect_slot(s, o.a); break;
    case SCON: mc_quiet(1); s->scoped[t][o.a] = true; mc_quiet(0); me.sc[o.a] = s->sigs[s->p->sig[o.a]]->connect_scoped(Fn(s, o.a, s->p->grp[o.a], true)); break;
    case DISC: r = viasc ? me.sc[o.a].disconnect() : me.c[o.a].disconnect(); break;
    case SDR: {
        if (viasc) sig::scoped_connection k(std::move(me.sc[o.a]));
        else sig::scoped_connection k(me.c[o.a]);
        break; }
    case DF: r = (int)g0->disconnect(Fn(s, 0, o.a, false)); break;
    case BLK: me.c[o.a].block(); break;
    case UNB: me.c[o.a].unblock(); break;
    case BKR: me.b[o.a] = me.c[o.a].blocker(); break;
    case BKE: me.b[o.a] = sig::connection_blocker(); break;
    case QRY: r = me.c[o.a].connected(); break;
    case VAL: r = me.c[o.a].valid(); break;
    case QRB: r = me.c[o.a].blocked(); break;
    case DROP: me.own[o.a].reset(); break;
    case KILL: delete g0; break;
    }
    mc_api_end();
    log_ev(E_END, t, op, o.a, r, v);
    if (o.k == KILL) { mc_quiet(1); s->sigs[o.a] = nullptr; mc_quiet(0); }
    return r;
}

void setup(void* v)
{
    Ctx* c = (Ctx*)v;
    log_reset();
    State* s = new State();
    c->s = s; s->p = c->p;
    const ProgD* p = c->p;
    for (int i = 0; i < p->nsig; ++i) s->sigs[i] = new Sig();
    for (int x = 0; x < p->ninit; ++x) {
        sig::connection k;
        if (p->kind[x] == 0) k = connect_slot(s, x);
        else {
            auto o = std::make_shared<Obj>(s, x);
            if (p->kind[x] == 1) k = s->sigs[p->sig[x]]->connect(&Obj::f, o);
            else k = s->sigs[p->sig[x]]->connect(Sig::slot_type(&Obj::f, std::weak_ptr<Obj>(o)));
            bool any = false;
            for (int t = 1; t <= p->nt; ++t) for (int i = 0; i < MAXOPS; ++i) if (p->op[t - 1][i].k == DROP && p->op[t - 1][i].a == x) { s->th[t].own[x] = o; any = true; }
            if (!any || p->main_owner[x]) s->th[0].own[x] = o;
        }
        if (p->blocked[x]) k.block();
        for (int t = 0; t <= p->nt; ++t) s->th[t].c[x] = k;
    }
    s->armed = true;
}

void thread(void* v, int t)
{
    Ctx* c = (Ctx*)v;
    for (int i = 0; i < MAXOPS; ++i) {
        OpD o = c->p->op[t - 1][i];
        if (o.k == NOP) break;
        do_op(c->s, t, o);
    }
}

void finish(void* v)
{
    Ctx* c = (Ctx*)v; State* s = c->s; const ProgD* p = c->p;
    log_ev(E_FIN, 0, 0, 0, 0, 0);
    for (int t = 1; t <= p->nt; ++t) for (int x = 0; x < MAXU; ++x) s->th[t].b[x] = sig::connection_blocker();
    for (int x = 0; x < MAXU; ++x) {
        // a handle of slot x
        sig::connection* k = nullptr;
        for (int t = 0; t <= p->nt && !k; ++t) { if (s->th[t].c[x].valid()) k = &s->th[t].c[x]; else if (s->th[t].sc[x].valid()) k = &s->th[t].sc[x]; }
        log_ev(E_FLIVE, 0, 0, x, live_get(x), 0);
        if (!k) { log_ev(E_FCONN, 0, 0, x, 0, 0); continue; }
        if (k->blocked()) { k->unblock(); if (k->blocked()) harness_fail(V_BLOCK, "a slot stays blocked after unblock and the end of every blocker"); }
        log_ev(E_FCONN, 0, 0, x, k->connected(), 0);
    }
    s->final_phase = true;
    for (int g = 0; g < p->nsig; ++g) if (s->sigs[g]) {
#ifdef RESULT_VOID
        (*s->sigs[g])(1); log_ev(E_FEMIT, 0, 0, g, 0, -1);
#else
        auto r = (*s->sigs[g])(1); log_ev(E_FEMIT, 0, 0, g, 0, r ? *r : -1);
#endif
    }
    for (int g = 0; g < p->nsig; ++g) if (s->sigs[g]) delete s->sigs[g];
    for (int x = 0; x < MAXU; ++x) {
        bool conn = false, dis = false;
        for (int t = 0; t <= p->nt; ++t) { conn |= s->th[t].c[x].connected() || s->th[t].sc[x].connected(); dis |= s->th[t].c[x].disconnect(); dis |= s->th[t].sc[x].disconnect(); }
        log_ev(E_KCONN, 0, 0, x, conn, 0); log_ev(E_KDISC, 0, 0, x, dis, 0);
        log_ev(E_KLIVE, 0, 0, x, live_get(x), 0);
    }
    delete s;
}

const char* check(void* v) { return oracle_check(((Ctx*)v)->p); }
} // namespace

static void print_prog(FILE* f, const ProgD& p)
{
    fprintf(f, "signals=%d slots=%d[", p.nsig, p.ninit);
    for (int x = 0; x < p.ninit; ++x) {
        fprintf(f, "%s%s%s", x ? " " : "", p.kind[x] == 0 ? "plain" : p.kind[x] == 1 ? "tracked" : "weak", p.blocked[x] ? "/blocked" : "");
        if (p.grp[x] != x) fprintf(f, "/group%d", p.grp[x]);
        if (p.sig[x]) fprintf(f, "/signal%d", p.sig[x]);
        if (p.act[x].k) fprintf(f, "/does-%s(%d)", opname[p.act[x].k], p.act[x].a);
        if (p.dact[x].k) fprintf(f, "/dtor-%s(%d)", opname[p.dact[x].k], p.dact[x].a);
    }
    fprintf(f, "]");
    for (int t = 0; t < p.nt; ++t) {
        fprintf(f, " T%d:", t + 1);
        for (int i = 0; i < MAXOPS && p.op[t][i].k; ++i) fprintf(f, "%s%s(%d)", i ? "," : "", opname[p.op[t][i].k], p.op[t][i].a);
    }
}

namespace {
ProgD* progs; Ctx ctx;
void sel(int i, mc_program* p) {
#ifdef RESULT_VOID
    progs[i].cats &= ~(uint32_t)V_RESULT;
#endif
    ctx.p = &progs[i]; *p = mc_program{progs[i].nt, setup, thread, finish, check, &ctx}; }
void prn(FILE* f, int i) { print_prog(f, progs[i]); }
void dump(FILE* f) { log_dump(ctx.p, f); }
}

int main(int argc, char** argv)
{
    mc_init();
    oracle_init();
    { auto sp = std::make_shared<int>(1); (void)std::atomic_load(&sp); }   // libstdc++ initialises its lock pool once
    if (argc < 4) { fprintf(stderr, "usage: conc run SUITE TIER NWORKERS MAXEXEC SECONDS OUTDIR | list SUITE TIER | replay SUITE TIER INDEX T T T...\n"); return 2; }
    int n = 0;
    progs = make_programs(argv[2], !strcmp(argv[3], "thorough"), &n);
    return runner_main(argc, argv, Suite{n, sel, prn, oracle_new_program, oracle_histories, dump});
}
