// History oracle of engine T (compiled without instrumentation; plain arrays only).
#include "conc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

const char* const opname[NOPK] = {"nop","emit","connect","disconnect","scoped-drop","disconnect-callable","block","unblock","blocker","blocker-end","connected?","blocked?","release-owner","destroy-signal","valid?","connect_scoped"};

namespace {
struct O { uint8_t k, a, t; int b, e; int r, v; int parent; };
struct Inv { int op, uid, i, j, lb, ub, arg, ret; };

LogE lg[MAXLOG]; int nlg;
int nop; O ops[64];
int live[MAXU], objs[MAXU];
uint32_t hcat; char hmsg[160];
bool overflow;

struct Memo { uint64_t* tab; size_t cap, n; uint64_t calls; uint64_t* bad; char (*badmsg)[400]; size_t nbad; };
Memo* M; char* g_msg;     // mmap: the optimiser turns malloc'ed singletons into (restored) globals

uint64_t fnv(const void* p, size_t n, uint64_t h) { const uint8_t* c = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }

bool memo_seen(uint64_t h)
{
    if (!h) h = 1;
    if (M->n * 2 >= M->cap) {
        size_t nc = M->cap * 2; uint64_t* nt = (uint64_t*)calloc(nc, 8);
        for (size_t i = 0; i < M->cap; ++i) if (M->tab[i]) { size_t k = M->tab[i] & (nc - 1); while (nt[k]) k = (k + 1) & (nc - 1); nt[k] = M->tab[i]; }
        free(M->tab); M->tab = nt; M->cap = nc;
    }
    size_t k = h & (M->cap - 1);
    while (M->tab[k]) { if (M->tab[k] == h) return true; k = (k + 1) & (M->cap - 1); }
    M->tab[k] = h; M->n++;
    return false;
}

uint32_t found; char fmsg[400];
void complain(const ProgD* p, uint32_t cat, const char* fmt, int a = 0, int b = 0, int c = 0)
{
    if (!(cat & p->cats)) return;
    if (!found) snprintf(fmsg, sizeof fmsg, fmt, a, b, c);
    found |= cat;
}

// ---- the history, digested
int T_end;                        // time after everything
Inv inv[128]; int ninv;
int fseq[MAXSIG][16], fn[MAXSIG]; // final emissions
int fret[MAXSIG]; bool fhave[MAXSIG];
int fconn[MAXU];                  // -1 unknown
int flive[MAXU];
int kconn[MAXU], kdisc[MAXU], klive[MAXU];
int deadt[MAXU];                  // time the object died, -1

void digest(const ProgD* p)
{
    memset(ops, 0, sizeof ops); nop = 0; ninv = 0; memset(fn, 0, sizeof fn); memset(fhave, 0, sizeof fhave);
    for (int i = 0; i < MAXU; ++i) fconn[i] = flive[i] = kconn[i] = kdisc[i] = klive[i] = deadt[i] = -1;
    T_end = nlg;
    int stack[MAXTH + 1][16], sp[MAXTH + 1]; memset(sp, 0, sizeof sp);
    for (int i = 0; i < nlg; ++i) {
        LogE& l = lg[i];
        switch (l.e) {
        case E_BEGIN: { O& o = ops[l.op]; o.k = l.b; o.a = l.a; o.t = l.t; o.b = i; o.e = T_end; o.r = -1; o.parent = sp[l.t] ? stack[l.t][sp[l.t] - 1] : -1; if (sp[l.t] < 15) stack[l.t][sp[l.t]++] = l.op; if (l.op >= nop) nop = l.op + 1; break; }
        case E_END: ops[l.op].e = i; ops[l.op].r = l.r; ops[l.op].v = l.v; if (sp[l.t]) sp[l.t]--; break;
        case E_INV: if (ninv < 128) { Inv& v = inv[ninv++]; v = Inv{l.op, l.a, i, T_end, 0, T_end, l.v, 0}; } break;
        case E_RET: for (int k = ninv - 1; k >= 0; --k) if (inv[k].op == l.op && inv[k].uid == l.a && inv[k].j == T_end) { inv[k].j = i; inv[k].ret = l.v; break; } break;
        case E_DEAD: deadt[l.a] = i; break;
        case E_FCONN: fconn[l.a] = l.r; break;
        case E_FLIVE: flive[l.a] = l.r; break;
        case E_FEMIT: fhave[l.a] = true; fret[l.a] = l.v; break;
        case E_FINV: if (fn[l.b] < 16) fseq[l.b][fn[l.b]++] = l.a; break;
        case E_KCONN: kconn[l.a] = l.r; break;
        case E_KDISC: kdisc[l.a] = l.r; break;
        case E_KLIVE: klive[l.a] = l.r; break;
        }
    }
}

inline bool affects_conn(const ProgD* p, const O& o, int x)   // may disconnect x
{
    if ((o.k == DISC || o.k == SDR) && o.a == x) return true;
    if (o.k == DF && p->grp[x] == o.a && p->kind[x] == 0) return true;
    if (o.k == KILL && p->sig[x] == o.a) return true;
    return false;
}

// Could slot x be observed as (un)blocked at some time in [lo, hi]?
void block_possible(const ProgD* p, int x, int lo, int hi, bool& can_blocked, bool& can_free)
{
    can_blocked = can_free = false;
    // the flag: initial value and every write are candidates unless definitely overwritten before lo
    bool fb = false, ff = false;
    for (int w = -1; w < nop; ++w) {
        int wb, we; bool val;
        if (w < 0) { wb = we = -1; val = p->blocked[x]; if (x >= p->ninit) val = false; }
        else { O& o = ops[w]; if ((o.k != BLK && o.k != UNB) || o.a != x) continue; wb = o.b; we = o.e; val = o.k == BLK; }
        if (wb > hi) continue;
        bool over = false;
        for (int u = 0; u < nop && !over; ++u) { O& o = ops[u]; if ((o.k == BLK || o.k == UNB) && o.a == x && u != w && we < o.b && o.e < lo) over = true; }
        if (over) continue;
        (val ? fb : ff) = true;
    }
    // blockers: held from BKR to BKE of the same thread
    bool definitely = false, maybe = false;
    for (int w = 0; w < nop; ++w) {
        O& o = ops[w]; if (o.k != BKR || o.a != x) continue;
        int ee = T_end, eb = T_end;
        for (int u = 0; u < nop; ++u) if (ops[u].k == BKE && ops[u].a == x && ops[u].t == o.t && ops[u].b > o.e && ops[u].b < eb) { eb = ops[u].b; ee = ops[u].e; }
        if (o.e < lo && eb > hi) definitely = true;
        if (o.b < hi && ee > lo) maybe = true;
    }
    can_blocked = fb || maybe;
    can_free = ff && !definitely;
}

// ---- linearisation of the list operations
int lin[32], nlin; bool used[32];
int list[MAXSIG][16], ln[MAXSIG];
uint32_t best;             // how far the search got (for the message)
long budget;

bool subseq_ok(const ProgD* p, int o, const int* L, int n)
{
    // the invocations of emission o, in order, must be a subsequence of L; the missing ones excused
    int k = 0;
    int seq[32], m = 0; Inv* iv[32];
    for (int i = 0; i < ninv; ++i) if (inv[i].op == o && m < 32) { iv[m] = &inv[i]; seq[m++] = inv[i].uid; }
    int prev_end = ops[o].b;
    for (int i = 0; i < n; ++i) {
        int x = L[i];
        if (k < m && seq[k] == x) { prev_end = iv[k]->j; ++k; continue; }
        // skipped: window in which the emission passed x
        int lo = prev_end, hi = k < m ? iv[k]->i : ops[o].e;
        bool excuse = false;
        for (int u = 0; u < nop && !excuse; ++u) {
            O& q = ops[u];
            if (affects_conn(p, q, x) && q.b < hi) excuse = true;
            if (q.k == DROP && q.a == x && p->kind[x] && q.b < hi) excuse = true;
        }
        if (!excuse) { bool cb, cf; block_possible(p, x, lo, hi, cb, cf); excuse = cb; }
        if (!excuse) return false;
    }
    return k == m;
}

bool lin_search(const ProgD* p, int done);

// DF removes the equal slots; those claimed by a concurrent handle disconnect may stay
bool do_df(const ProgD* p, int oi, int done, int from, int count)
{
    if (--budget < 0) return true;
    O& o = ops[oi];
    for (int s = 0; s < p->nsig; ++s) {
        for (int i = (s == 0 ? from : 0); i < ln[s]; ++i) {
            int x = list[s][i];
            if (p->grp[x] != o.a || p->kind[x] != 0) continue;
            if (s != 0) continue;                      // DF acts on signal 0
            int claimed = -1;
            for (int u = 0; u < nop; ++u) if ((ops[u].k == DISC && ops[u].r == 1 && ops[u].a == x) ) claimed = u;
            bool silent = false; for (int u = 0; u < nop; ++u) if (ops[u].k == SDR && ops[u].a == x && ops[u].b < o.e) silent = true;
            int keep[16]; int kn = ln[s]; memcpy(keep, list[s], sizeof keep);
            // remove
            list[s][i] = list[s][--ln[s]];
            if (claimed >= 0) {
                if (ops[claimed].b < o.e && do_df(p, oi, done, i, count)) return true;
            } else {
                if (do_df(p, oi, done, i, count + 1)) return true;
                if (silent && do_df(p, oi, done, i, count)) return true;
            }
            memcpy(list[s], keep, sizeof keep); ln[s] = kn;
            if (claimed >= 0 || silent) {              // left for the handle disconnect to remove
                int c = claimed; if (c >= 0 && ops[c].b > o.e) return false;
                return do_df(p, oi, done, i + 1, count);
            }
            return false;
        }
    }
    if (count != o.r) return false;
    return lin_search(p, done);
}

bool lin_search(const ProgD* p, int done)
{
    if (--budget < 0) return true;            // give up in favour of the code
    if ((uint32_t)done > best) best = done;
    if (done == nlin) {
        for (int s = 0; s < p->nsig; ++s) {
            if (!fhave[s]) continue;
            int m = 0;
            for (int i = 0; i < ln[s]; ++i) {
                int x = list[s][i];
                if (p->kind[x] && deadt[x] >= 0) continue;    // expired
                if (m >= fn[s] || fseq[s][m] != x) return false;
                ++m;
            }
            if (m != fn[s]) return false;
        }
        return true;
    }
    int save[MAXSIG][16], sn[MAXSIG];
    for (int c = 0; c < nlin; ++c) {
        if (used[c]) continue;
        int oi = lin[c]; O& o = ops[oi];
        bool first = true;
        for (int d = 0; d < nlin && first; ++d) if (!used[d] && d != c && ops[lin[d]].e < o.b) first = false;
        if (!first) continue;
        memcpy(save, list, sizeof list); memcpy(sn, ln, sizeof ln);
        used[c] = true;
        bool ok = false;
        switch (o.k) {
        case CONN: case SCON: { int s = p->sig[o.a]; list[s][ln[s]++] = o.a; ok = lin_search(p, done + 1); break; }
        case DISC: case SDR: {
            int s = p->sig[o.a], at = -1;
            for (int i = 0; i < ln[s]; ++i) if (list[s][i] == o.a) at = i;
            if (at >= 0) {
                list[s][at] = list[s][--ln[s]]; ok = lin_search(p, done + 1);
                if (!ok && o.k == SDR) {
                    // another disconnect that overlaps has claimed the slot and removes it later
                    bool by = false;
                    for (int u = 0; u < nop && !by; ++u) if (u != oi && affects_conn(p, ops[u], o.a) && !(ops[u].k == DISC && ops[u].r == 0) && ops[u].b < o.e && ops[u].e > o.b) by = true;
                    if (by) { memcpy(list, save, sizeof list); memcpy(ln, sn, sizeof ln); ok = lin_search(p, done + 1); }
                }
            }
            else {
                // already removed by a disconnect by callable that overlaps (or the signal is gone),
                // or, if it reports nothing, by anything
                bool by = o.k == SDR;
                for (int u = 0; u < nop && !by; ++u) if ((ops[u].k == DF || ops[u].k == KILL) && affects_conn(p, ops[u], o.a) && ops[u].b < o.e && ops[u].e > o.b) by = true;
                if (by) ok = lin_search(p, done + 1);
            }
            break;
        }
        case DF: ok = do_df(p, oi, done + 1, 0, 0); break;
        case KILL: ln[o.a] = 0; ok = lin_search(p, done + 1); break;
        case EMIT: ok = subseq_ok(p, oi, list[o.a], ln[o.a]) && lin_search(p, done + 1); break;
        }
        used[c] = false;
        if (ok) return true;
        memcpy(list, save, sizeof list); memcpy(ln, sn, sizeof ln);
    }
    return false;
}

bool linearizable(const ProgD* p, bool with_emit, bool with_final)
{
    nlin = 0; best = 0; budget = 2000000;
    for (int i = 0; i < nop; ++i) {
        O& o = ops[i];
        bool in = o.k == CONN || o.k == SCON || o.k == DF || o.k == KILL || (o.k == DISC && o.r == 1) || o.k == SDR || (with_emit && o.k == EMIT);
        if (in) lin[nlin++] = i;
    }
    memset(used, 0, sizeof used); memset(ln, 0, sizeof ln);
    for (int x = 0; x < p->ninit; ++x) { int s = p->sig[x]; list[s][ln[s]++] = x; }
    bool keep[MAXSIG]; memcpy(keep, fhave, sizeof keep);
    if (!with_final) memset(fhave, 0, sizeof fhave);
    bool ok = lin_search(p, 0);
    memcpy(fhave, keep, sizeof keep);
    return ok;
}

void check_all(const ProgD* p)
{
    if (hcat) { complain(p, hcat & p->cats ? hcat : 0, "%s"); if (hcat & p->cats) { snprintf(fmsg, sizeof fmsg, "%s", hmsg); } }
    digest(p);
    bool killed[MAXSIG] = {};
    for (int i = 0; i < nop; ++i) if (ops[i].k == KILL) killed[ops[i].a] = true;
    // --- invocations: windows, duplicates, results
    for (int o = 0; o < nop; ++o) {
        if (ops[o].k != EMIT) continue;
        int prev = ops[o].b; Inv* last = nullptr; int seen[MAXU] = {};
        for (int i = 0; i < ninv; ++i) {
            if (inv[i].op != o) continue;
            inv[i].lb = prev; prev = inv[i].j;
            if (last) last->ub = inv[i].i;
            last = &inv[i]; last->ub = ops[o].e;
            if (seen[inv[i].uid]++) complain(p, V_SNAPSHOT, "slot %d was invoked twice by one emission", inv[i].uid);
            if (p->sig[inv[i].uid] != ops[o].a) complain(p, V_SNAPSHOT, "slot %d of another signal was invoked", inv[i].uid);
            if (inv[i].arg != 100 + o) complain(p, V_ARG, "slot %d received argument %d instead of %d", inv[i].uid, inv[i].arg, 100 + o);
        }
        int want = last ? last->ret : -1;
        if (ops[o].v != want) complain(p, V_RESULT, "an emission returned %d, its last invoked slot %d", ops[o].v, want);
    }
    // --- a slot whose disconnection completed is never invoked again
    for (int i = 0; i < ninv; ++i) {
        int x = inv[i].uid;
        for (int u = 0; u < nop; ++u) {
            O& q = ops[u];
            if (affects_conn(p, q, x) && q.e < inv[i].lb) {
                if (q.k == KILL) complain(p, V_KILL | V_SNAPSHOT | V_REENTER, "slot %d was invoked after its signal was destroyed", x);
                else if (q.k == DF) {
                    // only if the slot was connected when DF started
                    bool before = x < p->ninit;
                    for (int w = 0; w < nop; ++w) if ((ops[w].k == CONN || ops[w].k == SCON) && ops[w].a == x && ops[w].e < q.b) before = true;
                    if (before) complain(p, V_STAY | V_SNAPSHOT | V_REENTER, "slot %d was invoked after disconnect(callable) had returned", x);
                }
                else complain(p, V_STAY | V_SNAPSHOT | V_REENTER, "slot %d was invoked after its disconnect had returned", x);
            }
            if (q.k == DROP && q.a == x && p->kind[x] && deadt[x] >= 0 && deadt[x] < inv[i].lb) complain(p, V_TRACK, "slot %d was invoked on a destroyed object", x);
        }
        bool cb, cf; block_possible(p, x, inv[i].lb, inv[i].i, cb, cf);
        if (!cf) complain(p, V_BLOCK | V_SNAPSHOT, "slot %d was invoked while it was blocked", x);
        if (deadt[x] >= 0 && deadt[x] < inv[i].j && p->kind[x]) complain(p, V_TRACK, "the object of slot %d was destroyed before the call on it ended", x);
        // connected before?
        if (x >= p->ninit) {
            int cbegin = T_end; for (int u = 0; u < nop; ++u) if ((ops[u].k == CONN || ops[u].k == SCON) && ops[u].a == x) cbegin = ops[u].b;
            if (cbegin > inv[i].i) complain(p, V_SNAPSHOT, "slot %d was invoked before it was connected", x);
        }
    }
    // --- exactly once: reports of a group of equal slots against the slots that ended disconnected
    for (int g = 0; g < MAXU; ++g) {
        int off = 0, must = 0, rep = 0; bool any = false;
        for (int x = 0; x < MAXU; ++x) {
            if (p->grp[x] != g || p->kind[x] || p->sig[x]) continue;
            bool exists = x < p->ninit, silent = false;
            for (int u = 0; u < nop; ++u) {
                O& q = ops[u];
                if ((q.k == CONN || q.k == SCON) && q.a == x) exists = true;
                if (q.k == DISC && q.a == x) rep += q.r;
                if ((q.k == SDR && q.a == x) || q.k == KILL) silent = true;
            }
            if (!exists) continue;
            any = true;
            if (fconn[x] == 0) { ++off; if (!silent) ++must; }
        }
        for (int u = 0; u < nop; ++u) if (ops[u].k == DF && ops[u].a == g) rep += ops[u].r;
        if (any && rep > off) complain(p, V_ONCE, "%d disconnects of equal slots were reported, %d slots were disconnected", rep, off);
        if (any && rep < must) complain(p, V_ONCE, "%d disconnects of equal slots were reported, at least %d slots were disconnected otherwise than silently", rep, must);
    }
    // --- exactly once
    for (int x = 0; x < MAXU; ++x) {
        bool exists = x < p->ninit; int ce = -1;
        for (int u = 0; u < nop; ++u) if ((ops[u].k == CONN || ops[u].k == SCON) && ops[u].a == x) { exists = true; ce = ops[u].e; }
        if (!exists) continue;
        int succ = 0, others = 0, attempts = 0, firstend = T_end;
        for (int u = 0; u < nop; ++u) {
            O& q = ops[u];
            if (!affects_conn(p, q, x)) continue;
            if (q.k == DISC) { ++attempts; if (q.r == 1) ++succ; } else ++others;
            bool after_conn = q.k != DF || ce < 0 || ce < q.b;
            if (after_conn && q.e < firstend) firstend = q.e;
        }
        if (succ > 1) complain(p, V_ONCE | V_LINEAR, "%d disconnects of slot %d reported success", succ, x);
        if (attempts && !succ && !others) complain(p, V_ONCE | V_LINEAR, "no disconnect of slot %d reported success", x);
        for (int u = 0; u < nop; ++u) {
            O& q = ops[u];
            if (q.k == DISC && q.a == x && q.r == 0) {
                bool by = false;
                for (int w = 0; w < nop; ++w) if (w != u && affects_conn(p, ops[w], x) && ops[w].b < q.e && !(ops[w].k == DISC && ops[w].r == 0)) by = true;
                if (!by) complain(p, V_ONCE | V_LINEAR, "disconnect of slot %d failed though nothing else disconnected it", x);
            }
            if (q.k == DISC && q.a == x && q.r == 1) {
                for (int w = 0; w < nop; ++w) if (w != u && affects_conn(p, ops[w], x) && ops[w].e < q.b && (ops[w].k != DF || ce < ops[w].b))
                    complain(p, V_ONCE | (ops[w].k == KILL ? V_KILL : 0), "disconnect of slot %d reported success after it had been disconnected", x);
            }
            if (q.k == QRY && q.a == x) {
                bool maybe_off = p->kind[x] && deadt[x] >= 0 && deadt[x] < q.e, def_off = p->kind[x] && deadt[x] >= 0 && deadt[x] < q.b;
                for (int w = 0; w < nop; ++w) if (p->kind[x] && ops[w].k == DROP && ops[w].a == x && ops[w].b < q.e) maybe_off = true;
                for (int w = 0; w < nop; ++w) if (affects_conn(p, ops[w], x)) {
                    if (ops[w].b < q.e) maybe_off = true;
                    if (ops[w].e < q.b && (ops[w].k != DF || ce < ops[w].b)) def_off = true;
                }
                if (q.r == 1 && def_off) complain(p, V_STAY | V_HANDLE | (p->kind[x] && deadt[x] >= 0 && deadt[x] < q.b ? V_TRACK : 0) | (killed[p->sig[x]] ? V_KILL : 0), "connected() of slot %d is true after it was disconnected", x);
                if (q.r == 0 && !maybe_off) complain(p, V_HANDLE | V_LINEAR, "connected() of slot %d is false though it is connected", x);
            }
            if (q.k == QRB && q.a == x) {
                bool cb, cf; block_possible(p, x, q.b, q.e, cb, cf);
                if (q.r == 1 && !cb) complain(p, V_BLOCK, "blocked() of slot %d is true though nothing blocks it", x);
                // a slot that no longer exists reports false
                bool gone = false; for (int w = 0; w < nop; ++w) if (affects_conn(p, ops[w], x) && ops[w].b < q.e) gone = true;
                if (q.r == 0 && !cf && !gone) complain(p, V_BLOCK, "blocked() of slot %d is false though it is blocked", x);
            }
        }
        // final state
        bool expect_off = killed[p->sig[x]]; bool maybe = expect_off;
        for (int u = 0; u < nop; ++u) if (affects_conn(p, ops[u], x)) { if (ops[u].k == DF && ce >= 0 && ce > ops[u].b) maybe = true; else expect_off = maybe = true; }
        if (p->kind[x] && deadt[x] >= 0) expect_off = maybe = true;
        if (fconn[x] == 1 && expect_off) complain(p, V_STAY | V_LINEAR | V_HANDLE | (killed[p->sig[x]] ? V_KILL : 0) | (p->kind[x] ? V_TRACK : 0), "slot %d still reports connected at the end", x);
        if (fconn[x] == 0 && !maybe) complain(p, V_LINEAR | V_HANDLE, "slot %d reports not connected at the end", x);
        if (kconn[x] == 1) complain(p, V_KILL | V_HANDLE, "slot %d reports connected after its signal was destroyed", x);
        if (kdisc[x] == 1) complain(p, V_KILL | V_ONCE, "disconnect of slot %d succeeded after its signal was destroyed", x);
        if (klive[x] > 0) complain(p, V_CALLABLE, "the callable of slot %d outlives its signal", x);
        bool infinal = false; int s = p->sig[x];
        for (int i = 0; i < fn[s]; ++i) if (fseq[s][i] == x) infinal = true;
        if (p->kind[x] == 0 && flive[x] >= 0 && !killed[s]) {
            if (infinal && flive[x] == 0) complain(p, V_CALLABLE, "slot %d is connected but its callable was destroyed", x);
            if (expect_off && flive[x] > 0) complain(p, V_CALLABLE, "the callable of the disconnected slot %d is still alive though nothing is running", x);
        }
        if (p->kind[x] == 0 && killed[s] && flive[x] > 0) complain(p, V_CALLABLE | V_KILL, "the callable of slot %d outlives its destroyed signal", x);
        if (fconn[x] >= 0 && fhave[s] && (fconn[x] == 1) != infinal) complain(p, V_LINEAR | V_STAY | V_HANDLE, "slot %d: connected()=%d does not agree with the final emission", x, fconn[x]);
        // objects: an owner that is released takes the object with it unless a call is running
        if (p->kind[x]) for (int u = 0; u < nop; ++u) {
            O& q = ops[u];
            if (q.k != DROP || q.a != x || p->main_owner[x]) continue;
            bool lastowner = true;
            for (int w = 0; w < nop; ++w) if (w != u && ops[w].k == DROP && ops[w].a == x && ops[w].e > q.b) lastowner = false;
            if (!lastowner) continue;
            if (deadt[x] >= 0 && deadt[x] < q.e) continue;
            bool excuse = false; int limit = q.e;
            for (int w = 0; w < nop; ++w) if ((ops[w].k == EMIT || ops[w].k == QRY || ops[w].k == DF || ops[w].k == DISC || ops[w].k == BLK || ops[w].k == CONN || ops[w].k == KILL) && ops[w].e > q.b && ops[w].b < q.e) { excuse = true; if (ops[w].e > limit) limit = ops[w].e; }
            if (!excuse) complain(p, V_TRACK, "the object of slot %d outlived its last owner", x);
        }
    }
    // objects whose every owner was released must be dead at the end
    for (int x = 0; x < MAXU; ++x) {
        if (!p->kind[x] || p->main_owner[x]) continue;
        int owners = 0, drops = 0;
        for (int t = 0; t < p->nt; ++t) { bool has = false; for (int i = 0; i < MAXOPS; ++i) if (p->op[t][i].k == DROP && p->op[t][i].a == x) has = true; owners += has; }
        for (int u = 0; u < nop; ++u) if (ops[u].k == DROP && ops[u].a == x) ++drops;
        if (owners && drops >= owners && deadt[x] < 0) complain(p, V_TRACK, "the object of slot %d is still alive after all owners were released", x);
        if (drops < owners && deadt[x] >= 0) complain(p, V_TRACK, "the object of slot %d was destroyed though it has an owner", x);
    }
    if (found) return;
    if (p->cats & V_LINEAR) if (!linearizable(p, false, true)) complain(p, V_LINEAR, "the final slots are not those of any one-at-a-time order of the operations");
    if (p->cats & (V_SNAPSHOT | V_REENTER)) if (!linearizable(p, true, false)) complain(p, V_SNAPSHOT | V_REENTER, "an emission is not explained by the slots at any one instant");
    if (!found && (p->cats & V_SNAPSHOT) && (p->cats & V_LINEAR)) if (!linearizable(p, true, true)) complain(p, V_SNAPSHOT, "emissions and final slots are not explained by any one-at-a-time order");
    if ((p->cats & V_CALLABLE) && hcat & V_CALLABLE) complain(p, V_CALLABLE, "callable");
}
} // namespace

extern "C" {
void log_reset(void) { nlg = 0; nop = 0; hcat = 0; hmsg[0] = 0; overflow = false; memset(live, 0, sizeof live); memset(objs, 0, sizeof objs); memset(lg, 0, sizeof lg); }
void log_ev(int e, int t, int op, int a, int r, int v) { if (nlg < MAXLOG) lg[nlg++] = LogE{(uint8_t)e, (uint8_t)t, (uint8_t)op, (uint8_t)a, 0, (int8_t)r, (int16_t)v}; else overflow = true; }
int log_op(int t, int k, int a) { int o = nop < 63 ? nop++ : 63; log_ev(E_BEGIN, t, o, a, 0, 0); if (nlg) lg[nlg - 1].b = (uint8_t)k; return o; }
void log_evb(int e, int a, int b) { if (nlg < MAXLOG) lg[nlg++] = LogE{(uint8_t)e, 0, 0, (uint8_t)a, (uint8_t)b, 0, 0}; }
void live_add(int u, int d) { live[u] += d; }
int live_get(int u) { return live[u]; }
void obj_add(int u, int d) { objs[u] += d; }
int obj_get(int u) { return objs[u]; }
void harness_fail(uint32_t cat, const char* msg) { if (!hcat) { hcat = cat; snprintf(hmsg, sizeof hmsg, "%s", msg); } }
void oracle_init(void) { M = (Memo*)mmap(nullptr, sizeof(Memo), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); M->cap = 1 << 12; M->tab = (uint64_t*)calloc(M->cap, 8); g_msg = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
void oracle_new_program(void) { memset(M->tab, 0, M->cap * 8); M->n = 0; M->calls = 0; }
uint64_t oracle_histories(void) { return M->n; }
uint64_t oracle_calls(void) { return M->calls; }
const char* oracle_check(const ProgD* p)
{
    M->calls++;
    uint64_t h = fnv(lg, nlg * sizeof(LogE), 1469598103934665603ull); h = fnv(&hcat, 4, h);
    if (memo_seen(h)) return nullptr;        // a bad history ends the exploration, so it is never seen twice
    if (overflow) return nullptr;
    found = 0;
    check_all(p);
    if (!found) return nullptr;
    snprintf(g_msg, 512, "%s", fmsg);
    return g_msg;
}
void log_dump(const ProgD* p, void* f)
{
    FILE* o = (FILE*)f;
    static const char* en[] = {"begin","end","invoke","return","object-destroyed","joined","final connected()","final live callables","final emission","final invoke","", "connected() after destroy","disconnect() after destroy","live callables after destroy","valid"};
    for (int i = 0; i < nlg; ++i) {
        LogE& l = lg[i];
        if (l.e == E_BEGIN) fprintf(o, "  [%3d] thread %d: op%d %s(%d) begins\n", i, l.t, l.op, opname[l.b], l.a);
        else if (l.e == E_END) fprintf(o, "  [%3d] thread %d: op%d returns r=%d v=%d\n", i, l.t, l.op, l.r, l.v);
        else if (l.e == E_INV) fprintf(o, "  [%3d] thread %d: op%d invokes slot %d with %d\n", i, l.t, l.op, l.a, l.v);
        else if (l.e == E_RET) fprintf(o, "  [%3d] thread %d: op%d slot %d returns %d\n", i, l.t, l.op, l.a, l.v);
        else fprintf(o, "  [%3d] %s slot %d: %d (%d)\n", i, en[l.e], l.a, l.r, l.v);
    }
}
}
