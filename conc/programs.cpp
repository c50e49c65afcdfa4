// Enumerates the programs of each suite: all assignments of operations of the suite's alphabet to
// threads, up to a shape, modulo exchanging threads (all threads hold the same handles).
#include "programs.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
namespace {
ProgD* P; int N, CAP;
enum { OWN = 0xF };      // argument: the slot this thread has connected
struct Cfg { ProgD b; };
ProgD base(int ninit, uint32_t cats)
{
    ProgD p; memset(&p, 0, sizeof p);
    p.nsig = 1; p.ninit = ninit; p.cats = cats; p.maxdepth = 1;
    for (int i = 0; i < MAXU; ++i) p.grp[i] = i;
    return p;
}
// Operations that lock the weak reference of one slot multiply the traces: the quick tier leaves out the
// programs with the most of them (the thorough tier has them all).
int limit2 = 100, limit3 = 100;
int weight(const ProgD& p)
{
    int w[MAXU] = {}, best = 0;
    for (int t = 0; t < p.nt; ++t) for (int i = 0; i < MAXOPS && p.op[t][i].k; ++i) {
        OpD o = p.op[t][i];
        switch (o.k) {
        case DISC: case SDR: case BLK: case UNB: case BKR: case BKE: case QRY: case QRB: case VAL: if (o.a < MAXU) w[o.a]++; break;
        case DROP: w[o.a]++; break;
        case EMIT: for (int x = 0; x < p.ninit; ++x) { if (p.kind[x]) w[x]++; OpD a = p.act[x]; if (a.k == DISC || a.k == SDR || a.k == BLK || a.k == BKR) w[a.a]++; if (a.k == EMIT) w[x]++; } break;
        }
    }
    for (int x = 0; x < MAXU; ++x) if (w[x] > best) best = w[x];
    return best;
}
void push(const ProgD& p) { if (weight(p) > (p.nt == 2 ? limit2 : limit3)) return; if (N == CAP) { CAP = CAP ? CAP * 2 : 256; P = (ProgD*)realloc(P, CAP * sizeof(ProgD)); } P[N++] = p; }

// does the program make sense?  assigns the connected slots
bool finalize(ProgD& p)
{
    int next = p.ninit; int kills = 0, killer = -1; bool emit_else = false;
    for (int t = 0; t < p.nt; ++t) {
        int own = -1; bool killed = false; int bkr[MAXU] = {}; bool dropped[MAXU] = {};
        for (int i = 0; i < MAXOPS && p.op[t][i].k; ++i) {
            OpD& o = p.op[t][i];
            if (o.k == CONN || o.k == SCON) { if (own >= 0 || next >= MAXU || killed) return false; o.a = own = next++; continue; }
            if (o.k == SDR && o.a == OWN && own < 0) return false;
            if (o.a == OWN) { if (own < 0) return false; o.a = own; }
            if (o.k == BKR) { if (bkr[o.a]) return false; bkr[o.a] = 1; }
            if (o.k == BKE) { if (!bkr[o.a]) return false; bkr[o.a] = 0; }
            if (o.k == DROP) { if (dropped[o.a]) return false; dropped[o.a] = true; }
            if ((o.k == EMIT || o.k == DF) && killed) return false;
            if (o.k == KILL) { ++kills; killer = t; killed = true; }
        }
    }
    if (kills > 1) return false;
    if (kills) for (int t = 0; t < p.nt; ++t) if (t != killer) for (int i = 0; i < MAXOPS && p.op[t][i].k; ++i) { int k = p.op[t][i].k; if (k == EMIT || k == CONN || k == SCON || k == DF) return false; }
    (void)emit_else;
    return true;
}

struct Alpha { const OpD* a; int n; };
uint32_t need;            // mask of operation kinds, one of which must occur
uint32_t need2;
// tuples of operations for one thread, as an index in base (n+1); all threads with exactly len[t] ops
void shape(const ProgD& b0, Alpha al, int nt, const int* len)
{
    int idx[MAXTH][MAXOPS] = {};
    for (;;) {
        ProgD p = b0; p.nt = nt;
        bool canon = true;
        for (int t = 0; t < nt; ++t) for (int i = 0; i < len[t]; ++i) p.op[t][i] = al.a[idx[t][i]];
        for (int t = 0; t + 1 < nt && canon; ++t) if (len[t] == len[t + 1]) { if (memcmp(idx[t], idx[t + 1], sizeof(int) * len[t]) > 0) canon = false; }
        uint32_t m = 0;
        for (int t = 0; t < nt; ++t) for (int i = 0; i < len[t]; ++i) m |= 1u << p.op[t][i].k;
        for (int x = 0; x < p.ninit; ++x) m |= 1u << p.act[x].k;
        if (canon && (!need || (m & need)) && (!need2 || (m & need2)) && finalize(p)) push(p);
        int t = nt - 1, i = len[t] - 1;
        for (;;) {
            if (++idx[t][i] < al.n) break;
            idx[t][i] = 0;
            if (--i < 0) { if (--t < 0) return; i = len[t] - 1; }
        }
    }
}
void shape2(const ProgD& b, Alpha a, int l1, int l2) { int l[] = {l1, l2}; shape(b, a, 2, l); }
void shape3(const ProgD& b, Alpha a, int l1, int l2, int l3) { int l[] = {l1, l2, l3}; shape(b, a, 3, l); }
#define AL(x) Alpha{x, (int)(sizeof(x) / sizeof(x[0]))}
uint32_t K(int k) { return 1u << k; }
}

extern "C" ProgD* make_programs(const char* suite, bool th, int* n)
{
    N = 0; need = need2 = 0;
    limit2 = th ? 100 : 3; limit3 = th ? 100 : 2;
    if (!strcmp(suite, "C06")) {
        uint32_t c = V_SNAPSHOT | V_LINEAR | V_RESULT | V_ARG;
        static const OpD a[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,1},{DF,0},{SDR,0},{BLK,0},{UNB,1},{BKR,1}};
        static const OpD s[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,1},{DF,0},{BLK,1}};
        static const OpD m[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,2},{DF,0}};
        need = K(EMIT);
        ProgD p = base(2, c); p.blocked[1] = 0; shape2(p, AL(a), 1, 1);
        ProgD q = base(3, c); q.grp[2] = 0; shape2(q, AL(a), 1, 1);
        q.blocked[1] = 1; shape2(q, AL(a), 1, 1);
        ProgD z = base(0, c); static const OpD e[] = {{EMIT,0},{CONN,0}}; shape2(z, AL(e), 1, 1); shape2(z, AL(e), 2, 2);
        ProgD q2 = base(2, c); shape2(q2, AL(s), 1, 2); shape2(q2, AL(s), 2, 2);
        ProgD q3 = base(2, c); q3.grp[1] = 0; shape3(q3, AL(s), 1, 1, 1);
        ProgD q4 = base(3, c); q4.grp[2] = 0; shape2(q4, AL(m), 1, 2);
        // more slots, several equal ones
        static const OpD l[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,3},{DISC,4},{DF,0},{DF,1},{BLK,3}};
        ProgD q5 = base(5, c); q5.grp[2] = q5.grp[4] = 0; q5.grp[3] = 1; shape2(q5, AL(l), 1, 1);
        static const OpD ls[] = {{EMIT,0},{DISC,0},{DISC,4},{DF,0}}; shape2(q5, AL(ls), 1, 2);
        if (th) { shape3(q4, AL(m), 1, 1, 1); shape2(q4, AL(m), 2, 2); shape2(q, AL(a), 2, 1); shape3(q2, AL(s), 2, 1, 1); shape2(q2, AL(s), 3, 2); }
    } else if (!strcmp(suite, "C07")) {
        uint32_t c = V_LINEAR | V_ONCE;
        static const OpD a[] = {{CONN,0},{SCON,0},{DISC,0},{DISC,1},{DISC,2},{DISC,OWN},{SDR,0},{SDR,OWN},{DF,0}};
        static const OpD s[] = {{CONN,0},{DISC,0},{DISC,1},{DISC,2},{DF,0}};
        static const OpD m[] = {{CONN,0},{DISC,0},{DISC,2},{DISC,OWN},{DF,0}};
        ProgD q = base(3, c); q.grp[2] = 0; shape2(q, AL(a), 1, 1);
        ProgD q2 = base(3, c); shape2(q2, AL(a), 1, 1);
        shape2(q, AL(s), 1, 2); shape2(q, AL(m), 2, 2); shape3(q, AL(s), 1, 1, 1); shape3(q2, AL(s), 1, 1, 1);
        ProgD z = base(0, c); static const OpD e[] = {{CONN,0},{DISC,OWN},{SCON,0},{SDR,OWN}}; shape2(z, AL(e), 1, 2); shape2(z, AL(e), 2, 2); shape3(z, AL(e), 1, 1, 1);
        ProgD q5 = base(5, c); q5.grp[2] = q5.grp[4] = 0; q5.grp[3] = 1;
        static const OpD l[] = {{CONN,0},{DISC,0},{DISC,1},{DISC,3},{DISC,4},{DF,0},{DF,1}}; shape2(q5, AL(l), 1, 1);
        static const OpD ls[] = {{DISC,0},{DISC,3},{DISC,4},{DF,0},{DF,1}}; shape2(q5, AL(ls), 1, 2); if (th) { shape2(q5, AL(ls), 2, 2); shape3(q5, AL(ls), 1, 1, 1); }
        // the list is shared with a running emission: copies instead of writing in place
        static const OpD f[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,1},{DF,0}}; need = K(EMIT);
        shape3(q, AL(f), 1, 1, 1);
        need = 0;
        if (th) { shape2(q, AL(a), 2, 2); shape3(q, AL(s), 2, 1, 1); shape3(z, AL(e), 2, 2, 1); shape2(q, AL(s), 3, 3); }
    } else if (!strcmp(suite, "C08")) {
        uint32_t c = V_ONCE | V_STAY;
        static const OpD a[] = {{DISC,0},{SDR,0},{DF,0},{QRY,0},{EMIT,0},{KILL,0},{DISC,1}};
        ProgD q = base(2, c); q.grp[1] = 0;
        shape2(q, AL(a), 1, 1); shape3(q, AL(a), 1, 1, 1); shape2(q, AL(a), 1, 2);
        static const OpD s[] = {{DISC,0},{SDR,0},{DF,0},{QRY,0},{EMIT,0}};
        ProgD q1 = base(1, c); shape2(q1, AL(s), 2, 2);
        // slots that disconnect themselves while others try
        ProgD r = base(2, c); r.act[0] = OpD{DISC, 0}; static const OpD b[] = {{EMIT,0},{DISC,0},{SDR,0},{DF,0}}; need = K(EMIT); shape2(r, AL(b), 1, 1); shape3(r, AL(b), 1, 1, 1); need = 0;
        static const OpD tr[] = {{EMIT,0},{DISC,0},{DROP,0},{QRY,0}}; ProgD t = base(2, c); t.kind[0] = 1; shape2(t, AL(tr), 1, 1); shape2(t, AL(tr), 1, 2);
        if (th) { shape2(q, AL(a), 2, 2); shape3(q, AL(s), 2, 1, 1); shape3(q1, AL(s), 2, 2, 1); shape3(t, AL(tr), 1, 1, 1); }
    } else if (!strcmp(suite, "C09")) {
        uint32_t c = 0;
        static const OpD a[] = {{EMIT,0},{CONN,0},{SCON,0},{DISC,0},{DISC,1},{SDR,1},{DF,0},{BLK,0},{UNB,0},{BKR,0},{QRY,0},{QRB,0},{VAL,0}};
        static const OpD s[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,1},{DF,0},{QRY,0},{BLK,0}};
        ProgD q = base(2, c); shape2(q, AL(a), 1, 1);
        ProgD q3 = base(3, c); q3.grp[2] = 0; shape2(q3, AL(s), 1, 1);
        shape3(q, AL(s), 1, 1, 1); shape2(q, AL(s), 2, 2);
        // slots that act on the signal while other threads use it
        static const OpD acts[] = {{EMIT,0},{DISC,0},{DISC,1},{DF,0},{CONN,5},{BLK,1}};
        static const OpD b[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,1},{DF,0}};
        need = K(EMIT);
        for (auto& x : acts) { ProgD r = base(2, c); r.act[0] = x; shape2(r, AL(b), 1, 1); ProgD r2 = base(2, c); r2.act[1] = x; shape2(r2, AL(b), 1, 1); }
        // two signals whose slots emit each other
        ProgD x = base(2, c); x.nsig = 2; x.sig[1] = 1; x.act[0] = OpD{EMIT, 1}; x.act[1] = OpD{EMIT, 0}; x.maxdepth = 2;
        static const OpD d[] = {{EMIT,0},{EMIT,1},{DISC,0},{DISC,1}}; shape2(x, AL(d), 1, 1); shape3(x, AL(d), 1, 1, 1);
        // slots that disconnect a slot of the other signal
        ProgD y = base(2, c); y.nsig = 2; y.sig[1] = 1; y.act[0] = OpD{DISC, 1}; y.act[1] = OpD{DISC, 0};
        shape2(y, AL(d), 1, 1); shape3(y, AL(d), 1, 1, 1);
        // destructors of callables that use the signal
        static const OpD da[] = {{EMIT,0},{DISC,1},{CONN,5},{DF,1}};
        need = 0; need2 = 0;
        for (auto& k : da) { ProgD r = base(3, c); r.dact[0] = k; static const OpD e[] = {{EMIT,0},{DISC,0},{DF,0},{DISC,1}}; shape2(r, AL(e), 1, 1); }
        // tracked objects
        ProgD t = base(2, c); t.kind[0] = 1; t.kind[1] = 2; static const OpD tr[] = {{EMIT,0},{DROP,0},{DROP,1},{DISC,0},{QRY,0},{CONN,0}}; shape2(t, AL(tr), 1, 1); shape3(t, AL(tr), 1, 1, 1);
        if (th) {
            shape2(q, AL(a), 2, 1); shape3(q3, AL(s), 1, 1, 1); shape3(q, AL(s), 2, 1, 1); shape2(q3, AL(s), 2, 2);
            need = K(EMIT);
            for (auto& v : acts) { ProgD r = base(2, c); r.act[0] = v; shape3(r, AL(b), 1, 1, 1); }
            for (auto& v : acts) for (auto& w : acts) { ProgD r = base(2, c); if (v.k == CONN && w.k == CONN) continue; r.act[0] = v; r.act[1] = w; shape2(r, AL(b), 1, 1); }
            shape2(x, AL(d), 2, 2); shape2(y, AL(d), 2, 2);
        }
    } else if (!strcmp(suite, "C05")) {
        uint32_t c = V_REENTER | V_SNAPSHOT | V_LINEAR | V_ONCE;
        static const OpD acts[] = {{EMIT,0},{DISC,0},{DISC,1},{DISC,2},{DF,0},{DF,1},{CONN,5},{BLK,0},{BLK,1},{BKR,1},{SDR,1}};
        static const OpD b[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,1},{DF,0},{BLK,2}};
        static const OpD s[] = {{EMIT,0},{DISC,0},{CONN,0},{DF,0}};
        need = K(EMIT);
        for (int at = 0; at < 3; ++at) for (auto& x : acts) {
            if (x.k == CONN && at) continue;
            ProgD r = base(3, c); r.act[at] = x; shape2(r, AL(b), 1, 1);
            if (at == 0) { ProgD r2 = base(2, c); r2.act[0] = x; if (!(x.k != CONN && x.k != BKR && x.a >= 2 && x.k != DF)) { limit2 = th ? 100 : 2; shape2(r2, AL(s), 1, 2); limit2 = th ? 100 : 3; } }
        }
        ProgD kq = base(2, c); kq.act[0] = OpD{KILL, 0}; static const OpD kb[] = {{EMIT,0},{DISC,0},{DISC,1},{QRY,0},{SDR,1},{BLK,1}};
        for (auto& o : kb) if (o.k != EMIT) { ProgD r = kq; r.nt = 2; r.op[0][0] = OpD{EMIT,0}; r.op[1][0] = o; push(r); }
        static const OpD da[] = {{EMIT,0},{DISC,1},{CONN,5},{DF,1},{DISC,0}};
        for (auto& k : da) { ProgD r = base(3, c); r.dact[0] = k; static const OpD e[] = {{EMIT,0},{DISC,0},{DF,0},{DISC,1}}; need = 0; shape2(r, AL(e), 1, 1); need = K(EMIT); }
        if (th) {
            for (auto& x : acts) for (auto& y : acts) { if (x.k == CONN && y.k == CONN) continue; ProgD r = base(3, c); r.act[0] = x; r.act[1] = y; shape2(r, AL(b), 1, 1); }
            for (auto& x : acts) { ProgD r = base(3, c); r.act[0] = x; shape3(r, AL(s), 1, 1, 1); shape2(r, AL(b), 2, 1); }
        }
    } else if (!strcmp(suite, "C10")) {
        uint32_t c = V_TRACK;
        static const OpD a[] = {{EMIT,0},{DROP,0},{DROP,1},{DISC,0},{DISC,1},{QRY,0},{CONN,0},{DF,2},{BLK,0}};
        static const OpD s[] = {{EMIT,0},{DROP,0},{DROP,1},{DISC,0},{QRY,0}};
        for (int k = 1; k <= 2; ++k) {
            ProgD q = base(3, c); q.kind[0] = k; q.kind[1] = 3 - k; shape2(q, AL(a), 1, 1);
            ProgD q1 = base(2, c); q1.kind[0] = k; static const OpD s1[] = {{EMIT,0},{DROP,0},{DISC,0},{DISC,1},{QRY,0}}; shape2(q1, AL(s1), 1, 2); shape3(q1, AL(s1), 1, 1, 1);
            ProgD o = base(2, c); o.kind[0] = k; o.main_owner[0] = 1; shape2(o, AL(s), 1, 1);
        }
        ProgD r = base(2, c); r.kind[0] = 1; static const OpD sd[] = {{EMIT,0},{DROP,0},{KILL,0},{DISC,0},{QRY,0}};
        shape2(r, AL(sd), 1, 1); shape2(r, AL(sd), 2, 1);
        r.act[0] = OpD{DISC, 0}; shape2(r, AL(s), 1, 1);
        if (th) { ProgD q = base(3, c); q.kind[0] = 1; q.kind[1] = 2; need = K(DROP); shape2(q, AL(a), 2, 1); shape2(q, AL(s), 2, 2); shape3(q, AL(s), 2, 1, 1); }
    } else if (!strcmp(suite, "C11")) {
        uint32_t c = V_CALLABLE;
        static const OpD a[] = {{EMIT,0},{CONN,0},{DISC,0},{DISC,1},{DF,0},{SDR,0},{KILL,0},{DISC,OWN},{BKR,0},{QRY,0}};
        static const OpD s[] = {{EMIT,0},{DISC,0},{DF,0},{CONN,0},{SDR,1}};
        ProgD q = base(2, c); shape2(q, AL(a), 1, 1); q.grp[1] = 0; shape2(q, AL(a), 1, 1); shape3(q, AL(s), 1, 1, 1); shape2(q, AL(s), 1, 2); shape2(q, AL(a), 1, 2);
        static const OpD acts[] = {{DISC,0},{DF,0},{DISC,1},{SDR,0}};
        for (auto& x : acts) { ProgD r = base(2, c); r.act[0] = x; need = K(EMIT); shape2(r, AL(s), 1, 1); limit2 = th ? 100 : 2; shape2(r, AL(s), 1, 2); limit2 = th ? 100 : 3; need = 0; }
        if (th) { shape2(q, AL(s), 2, 2); shape3(q, AL(s), 2, 1, 1); for (auto& x : acts) { ProgD r = base(2, c); r.act[0] = x; need = K(EMIT); shape3(r, AL(s), 1, 1, 1); need = 0; } }
    } else if (!strcmp(suite, "C12")) {
        uint32_t c = V_HANDLE;
        static const OpD a[] = {{QRY,0},{VAL,0},{DISC,0},{SDR,0},{DF,0},{KILL,0},{DISC,1},{CONN,0},{EMIT,0},{BLK,0}};
        need = K(QRY) | K(VAL) | K(SDR) | K(DISC);
        ProgD q = base(2, c); shape2(q, AL(a), 1, 1);
        static const OpD s[] = {{QRY,0},{DISC,0},{SDR,0},{DF,0},{KILL,0}};
        shape2(q, AL(s), 1, 2); shape2(q, AL(s), 2, 2); shape3(q, AL(s), 1, 1, 1);
        if (th) { shape2(q, AL(a), 2, 1); shape3(q, AL(s), 2, 1, 1); }
    } else if (!strcmp(suite, "C13")) {
        uint32_t c = V_BLOCK;
        static const OpD a[] = {{EMIT,0},{BLK,0},{UNB,0},{BKR,0},{BKE,0},{QRB,0},{DISC,1},{CONN,0},{BLK,1}};
        static const OpD s[] = {{EMIT,0},{BLK,0},{UNB,0},{BKR,0},{BKE,0},{QRB,0}};
        static const OpD m[] = {{BKR,0},{BKE,0},{EMIT,0},{QRB,0}};
        ProgD q = base(2, c); shape2(q, AL(a), 1, 1); q.blocked[0] = 1; shape2(q, AL(a), 1, 1); shape2(q, AL(s), 1, 2); q.blocked[0] = 0; shape2(q, AL(s), 2, 2); shape3(q, AL(s), 1, 1, 1);
        if (th) { shape3(q, AL(m), 2, 2, 1); shape2(q, AL(m), 3, 2); }
        ProgD r = base(2, c); r.act[0] = OpD{BLK, 1}; need = K(EMIT); shape2(r, AL(s), 1, 1); r.act[0] = OpD{BKR, 1}; shape2(r, AL(s), 1, 1);
        need = 0;
        if (th) { shape2(q, AL(a), 2, 2); shape2(q, AL(s), 3, 2); shape3(q, AL(s), 2, 2, 1); shape2(q, AL(m), 3, 3); }
    } else if (!strcmp(suite, "C15")) {
        uint32_t c = V_KILL | V_ONCE;
        static const OpD a[] = {{KILL,0},{DISC,0},{DISC,1},{SDR,0},{QRY,0},{VAL,0},{BLK,0},{BKR,0},{BKE,0},{UNB,0},{QRB,0}};
        need = K(KILL);
        ProgD q = base(2, c); shape2(q, AL(a), 1, 1); shape2(q, AL(a), 1, 2); shape3(q, AL(a), 1, 1, 1);
        static const OpD pre[] = {{KILL,0},{EMIT,0},{DISC,0},{DISC,1},{QRY,0},{CONN,0}}; shape2(q, AL(pre), 2, 1); shape2(q, AL(pre), 2, 2);
        // destroyed by one of its slots during an emission
        for (int at = 0; at < 2; ++at) for (auto& o : a) for (auto& o2 : a) {
            if (o.k == KILL || o2.k == KILL || o.k == BKE || (o2.k == BKE && o.k != BKR)) continue;
            ProgD r = base(2, c); r.act[at] = OpD{KILL, 0}; r.nt = 2; r.op[0][0] = OpD{EMIT,0}; r.op[1][0] = o; r.op[1][1] = o2; if (finalize(r)) push(r);
        }
        ProgD t = base(2, c); t.kind[0] = 1; static const OpD tr[] = {{KILL,0},{DROP,0},{DISC,0},{QRY,0}}; shape2(t, AL(tr), 1, 1); shape3(t, AL(tr), 1, 1, 1);
        if (th) { shape2(q, AL(a), 2, 2); ProgD q3 = base(3, c); static const OpD s[] = {{KILL,0},{DISC,0},{DISC,1},{DISC,2},{SDR,1},{QRY,0}}; shape3(q3, AL(s), 1, 1, 1); shape2(q3, AL(s), 1, 3); shape3(q, AL(s), 1, 2, 1); }
    }
    *n = N; return P;
}
