// Engine S, signals: every history of operations on real signals, slots and handles, up to a bound, with
// actions performed inside slots and inside destructors of callables, is run in lock step with a reference
// model.  Uses only the public interface of signals.hpp.
#include "signals.hpp"
#include "rt.h"
#include <cstring>
#include <memory>
#include <utility>
#include <vector>
#include <string>

namespace {
// ---- categories of mismatches
enum : uint32_t {
    M_MEMBER = 1, M_ORDER = 2, M_RESULT = 4, M_CONN = 8, M_VALID = 16, M_BLOCKQ = 32, M_RET = 64, M_COUNT = 128,
    M_LIFE = 256, M_OBJ = 512, M_LEAK = 1024, M_ARG = 2048, M_EXC = 4096, M_ALL = 0xffff
};
enum Kind : uint8_t { K_FN, K_TSHARED, K_TWEAK, K_RAW, K_TCUST, NKIND };   // K_TCUST: a user-defined pointer with its own to_weak()
inline bool tracked(int k) { return k == K_TSHARED || k == K_TWEAK || k == K_TCUST; }
const char* const kindname[] = {"callable", "tracked-shared", "tracked-weak", "method"};
enum { MAXU = 8, NC = MAXU, NS = 3, NB = 3, NSIG = 2, NOBJ = 2 };

enum OpK : uint8_t {
    CONN, SCONN, DISC, SDISC, DF, DFO, BLK, UNB, EMIT, DROP, KILL, NEW, MVC, MVA, SWPSIG,
    CC, CM, CS, CX, SC, SCM, SM, SS, SREL, SX, CSL, STMP, SWC, BK, BM, BS, BX, BTMP, THROW, NONE, CCT, CTMP, NOPK
};
const char* const opn[] = {
    "connect", "connect_scoped", "disconnect", "scoped.disconnect", "disconnect-callable", "disconnect-method", "block", "unblock", "emit", "drop-object", "destroy-signal", "new-signal", "move-construct-signal", "move-assign-signal", "swap-signals",
    "copy-assign", "move-assign", "swap", "clear", "scoped=copy-of", "scoped=moved", "scoped=scoped", "swap-scoped", "release", "scoped-clear", "slice-copy", "scoped-temporary", "scoped.swap-connection", "blocker", "blocker=moved", "swap-blockers", "blocker-clear", "blocker-temporary", "throw", "nothing", "copy-construct-temporary", "move-construct-temporary-and-back"
};
struct Op { uint8_t k; uint8_t a, b; };
constexpr uint64_t bit(int k) { return 1ull << k; }

struct Cfg {
    uint64_t ops = 0, cbops = 0, dtops = 0;       // alphabets: history, inside a slot, inside a callable's destructor
    int depth = 0, cb = 0, dt = 0;                // operations, actions in slots, actions in destructors
    int maxu = 4;                                 // slots ever connected
    int pre = 0;                                  // slots connected beforehand
    uint8_t prekind[MAXU] = {}, pregrp[MAXU] = {};
    uint8_t kinds = 1;                            // kinds that connect may use
    int groups = 2;                               // groups of equal callables
    int nc = NC, ns = 0, nb = 0;                  // registers
    bool uidregs = true;                          // connection of slot u is register u
    int nsig = 1, nobj = 0;
    int emitdepth = 2;
    int faults = 0;
    uint32_t mask = 0;
    bool nestmove = false;                        // signals may be moved from inside slots
    bool allow_noop = true;                       // operations without effect in the model
    bool finish_emit = true;
    bool prune_last = false;
};

struct SlotErr { int v; };
struct CopyErr { int v; };

template<typename R> struct Ret;
template<> struct Ret<int> { static int make(int v) { return v; } static int get(const opt::optional<int>& o) { return o ? *o : -1; } };
template<> struct Ret<void> { static void make(int) {} static int get(const opt::optional<void>& o) { return o ? -2 : -1; } };

template<typename R> struct World;
template<typename R> struct WP { static World<R>* w; };
template<typename R> World<R>* WP<R>::w;

const int MAGIC = 0x51075107;

template<typename R> struct Fn {
    int uid, grp, magic;
    Fn(int u, int g) : uid(u), grp(g), magic(MAGIC) { WP<R>::w->born(uid); }
    Fn(const Fn& o) : uid(o.uid), grp(o.grp), magic(MAGIC) { if (o.magic != MAGIC) fail("a destroyed callable was copied"); WP<R>::w->copying(uid); WP<R>::w->born(uid); }
    ~Fn() { if (magic != MAGIC) fail("a callable was destroyed twice"); magic = 0; WP<R>::w->died(uid); }
    Fn& operator=(const Fn&) = delete;
    R operator()(int v) { if (magic != MAGIC) fail("a destroyed callable was invoked"); int r = WP<R>::w->on_call(uid, v, -1); if (magic != MAGIC) fail("the callable of slot %d was destroyed while it was running", uid); return Ret<R>::make(r); }
    bool operator==(const Fn& o) const { if (magic != MAGIC || o.magic != MAGIC) fail("a destroyed callable was compared"); return grp == o.grp; }
};
template<typename R> struct Obj {
    int o, magic;
    explicit Obj(int i) : o(i), magic(MAGIC) { if (o >= 0) WP<R>::w->objlive[o]++; }
    Obj(const Obj&) = delete;
    ~Obj() { if (magic != MAGIC) fail("an object was destroyed twice"); magic = 0; if (o >= 0) WP<R>::w->objlive[o]--; }
    template<int K> R f(int v) { if (magic != MAGIC) fail("a method was called on a destroyed object"); int r = WP<R>::w->on_call(K, v, o); if (magic != MAGIC) fail("an object was destroyed while a method was running on it"); return Ret<R>::make(r); }
};

template<typename R> struct Handle { std::shared_ptr<Obj<R>> p; Obj<R>& operator*() const { return *p; } };
template<typename R> std::weak_ptr<Obj<R>> to_weak(const Handle<R>& h) { return h.p; }

template<typename R> struct World {
    using Sig = sig::signal<R(int)>;
    using O = Obj<R>;
    using PMF = R (O::*)(int);
    static PMF pmf(int k) { static const PMF t[MAXU] = {&O::template f<0>, &O::template f<1>, &O::template f<2>, &O::template f<3>, &O::template f<4>, &O::template f<5>, &O::template f<6>, &O::template f<7>}; return t[k]; }

    // ---- model
    struct MS { bool used, connected, blocked; int blockers, sig, kind, grp, obj, running; };
    struct Em { int sig; int n; int snap[MAXU]; int next; uint32_t invoked; int last; int id; bool incb, settled, disturbed, thrown; };
    MS m[MAXU]; int nu = 0;
    int list[NSIG][MAXU], nlist[NSIG]; bool sigalive[NSIG];
    int mc[NC], ms[NS], mb[NB];
    int owners[NOBJ], objrun[NOBJ]; bool objmade[NOBJ];
    Em es[8]; int ne = 0;
    int emitid = 0;
    int cbleft, dtleft, faultleft; int indt = 0, nomove = 0;
    bool armed = false;
    const Cfg& cfg;
    // ---- counters filled by the real objects
    int live[MAXU]; int objlive[NOBJ];
    // ---- real
    std::unique_ptr<Sig> sg[NSIG];
    sig::connection c[NC]; sig::scoped_connection s[NS]; sig::connection_blocker b[NB];
    std::shared_ptr<O> own[NOBJ]; std::weak_ptr<O> wown[NOBJ];
    O raw;
    bool finishing = false;
    long alloc0;

    explicit World(const Cfg& f) : cfg(f), raw((WP<R>::w = this, -1))
    {
        memset(m, 0, sizeof m); memset(list, 0, sizeof list); memset(nlist, 0, sizeof nlist); memset(live, 0, sizeof live); memset(objlive, 0, sizeof objlive);
        memset(owners, 0, sizeof owners); memset(objrun, 0, sizeof objrun); memset(objmade, 0, sizeof objmade); memset(sigalive, 0, sizeof sigalive);
        for (int& x : mc) x = -1; for (int& x : ms) x = -1; for (int& x : mb) x = -1;
        cbleft = cfg.cb; dtleft = cfg.dt; faultleft = cfg.faults;
    }
    bool wants(uint32_t cat) const { return cfg.mask & cat; }
    void bad(uint32_t cat, const char* what, int u = -1) { if (wants(cat)) { if (u >= 0) fail("%s (slot %d)", what, u); fail("%s", what); } else if (replaying()) note("  (not this property: %s, %d)\n", what, u); }

    // ---- callables report
    void born(int u) { if (u >= 0) ++live[u]; }
    void copying(int u) { (void)u; if (armed && faultleft > 0 && choose(2)) { --faultleft; armed = false; note("  [copying the callable throws]\n"); injected = 2; throw CopyErr{1}; } }
    int injected = 0;
    void died(int u)
    {
        if (u < 0) return;
        --live[u];
        if (live[u] == 0 && !finishing) {
            if (m[u].running) bad(M_LIFE, "a callable was destroyed while it was running", u);
            if (m[u].connected && m[u].used) bad(M_LIFE, "the callable of a connected slot was destroyed", u);
            if (dtleft > 0 && m[u].used && !indt && !armed && !nomove) {
                // an emission that is not inside a slot has finished invoking its slots
                if (ne && !es[ne - 1].incb && predicted(es[ne - 1]) < 0) es[ne - 1].settled = true;
                Op ops[64]; int n = build(cfg.dtops, ops, true);
                int k = choose(n + 1);
                if (k) { --dtleft; ++indt; note("  {destructor of the callable of slot %d: ", u); perform(ops[k - 1]); note("}\n"); --indt; }
            }
        }
    }
    bool objalive(int o) const { return owners[o] > 0 || objrun[o] > 0; }
    bool expired(int u) const { return tracked(m[u].kind) && !objalive(m[u].obj); }
    bool visible(int u) const { return m[u].connected && !expired(u); }
    bool isblocked(int u) const { return m[u].blocked || m[u].blockers > 0; }
    bool invocable(int u) const { return visible(u) && !isblocked(u); }
    int predicted(const Em& e) const { if (e.settled || e.thrown) return -1; for (int i = e.next; i < e.n; ++i) if (invocable(e.snap[i])) return i; return -1; }
    bool reachable(int u) const { for (int i = 0; i < ne; ++i) for (int j = 0; j < es[i].n; ++j) if (es[i].snap[j] == u) return true; return false; }

    int on_call(int u, int v, int obj)
    {
        step();
        note("  slot %d invoked\n", u);
        if (!ne || es[ne - 1].incb) fail("slot %d was invoked outside of an emission", u);
        int me = ne - 1;
        Em& e = es[me];
        if (v != 100 + e.id) bad(M_ARG, "a slot received another argument than the emitter passed", u);
        bool insnap = false; for (int i = 0; i < e.n; ++i) if (e.snap[i] == u) insnap = true;
        if (!m[u].used) fail("an unknown slot was invoked");
        if (e.invoked & (1u << u)) bad(M_MEMBER, "a slot was invoked twice by one emission", u);
        if (!insnap) bad(M_MEMBER, m[u].connected ? "a slot connected during an emission was invoked by it" : "a slot that is not in the signal was invoked", u);
        else if (!m[u].connected) bad(M_MEMBER, "a disconnected slot was invoked", u);
        else if (isblocked(u)) bad(M_MEMBER, "a blocked slot was invoked", u);
        else if (expired(u)) bad(M_OBJ, "a slot was invoked after its object was destroyed", u);
        else if (e.thrown) bad(M_MEMBER | M_EXC, "a slot was invoked after an earlier slot of the emission had thrown", u);
        int j = predicted(e);
        if (j >= 0 && e.snap[j] == u) e.next = j + 1;
        else { e.disturbed = true; bad(M_ORDER, "a slot was invoked out of order", u); }
        if (tracked(m[u].kind) && obj != m[u].obj) bad(M_MEMBER, "a method was invoked on another object", u);
        e.invoked |= 1u << u;
        e.incb = true; m[u].running++; if (obj >= 0) objrun[obj]++;
        if (obj >= 0 && objlive[obj] != 1) bad(M_OBJ, "a method runs on an object that is gone", u);
        bool thr = false;
        if (cbleft > 0 && !finishing) {
            Op ops[128]; int n = build(cfg.cbops, ops, true);
            int k = choose(n + 1);
            if (k) { --cbleft; if (ops[k - 1].k == THROW) thr = true; else { note("  {slot %d: ", u); perform(ops[k - 1]); note("}\n"); } }
        }
        if (m[u].kind == K_FN && live[u] <= 0) bad(M_LIFE, "the callable was destroyed while it was running", u);
        if (obj >= 0 && objlive[obj] != 1) bad(M_OBJ, "the object was destroyed while a method was running on it", u);
        es[me].incb = false; m[u].running--; if (obj >= 0) objrun[obj]--;
        es[me].last = es[me].id * 10 + u;
        if (thr) { es[me].thrown = true; note("  slot %d throws\n", u); throw SlotErr{es[me].id * 10 + u}; }
        return es[me].id * 10 + u;
    }

    // ---- model operations
    bool mdisc(int u)
    {
        if (u < 0 || !m[u].connected) return false;
        m[u].connected = false;
        int g = m[u].sig; int i = 0; while (i < nlist[g] && list[g][i] != u) ++i;
        if (i < nlist[g]) { list[g][i] = list[g][nlist[g] - 1]; --nlist[g]; }
        return true;
    }
    int newslot(int kind, int grp, int sigi)
    {
        int u = nu++; m[u] = MS{true, false, false, 0, sigi, kind, grp, tracked(kind) ? grp : -1, 0};
        return u;
    }
    void addlist(int u) { m[u].connected = true; int g = m[u].sig; list[g][nlist[g]++] = u; }

    // ---- enumeration of the enabled operations
    int build(uint64_t al, Op* out, bool nested)
    {
        int n = 0;
        auto add = [&](int k, int a, int b2) { out[n++] = Op{(uint8_t)k, (uint8_t)a, (uint8_t)b2}; };
        int nc = cfg.uidregs ? nu : cfg.nc;
        if (al & (bit(CONN) | bit(SCONN))) if (nu < cfg.maxu) {
            for (int k = 0; k < NKIND; ++k) if (cfg.kinds >> k & 1) {
                int ng = k == K_FN ? cfg.groups : k == K_RAW ? 1 : cfg.nobj;
                for (int g = 0; g < ng; ++g) {
                    if ((k == K_TSHARED || k == K_TCUST) && objmade[g] && owners[g] == 0) continue;
                    int code = k | g << 4;
                    if (al & bit(CONN)) { if (cfg.uidregs) { for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) add(CONN, nu | x << 4, code); } else for (int r = 0; r < cfg.nc; ++r) for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) add(CONN, r | x << 4, code); }
                    if (al & bit(SCONN)) for (int r = 0; r < cfg.ns; ++r) for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) add(SCONN, r | x << 4, code);
                }
            }
        }
        if (al & bit(DISC)) for (int i = 0; i < nc; ++i) if (cfg.allow_noop || (mc[i] >= 0 && m[mc[i]].connected)) add(DISC, i, 0);
        if (al & bit(SDISC)) for (int i = 0; i < cfg.ns; ++i) if (cfg.allow_noop || (ms[i] >= 0 && m[ms[i]].connected)) add(SDISC, i, 0);
        for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) {
            if (al & bit(DF)) for (int g = 0; g < cfg.groups; ++g) { bool any = cfg.allow_noop; for (int i = 0; i < nlist[x]; ++i) if (m[list[x][i]].kind == K_FN && m[list[x][i]].grp == g) any = true; if (any) add(DF, g, x); }
            if (al & bit(DFO)) for (int u = 0; u < nu; ++u) if (m[u].kind != K_FN && m[u].sig == x && (m[u].kind == K_RAW || ((m[u].kind == K_TSHARED || m[u].kind == K_TCUST) && owners[m[u].obj] > 0) || (m[u].kind == K_TWEAK)) && (cfg.allow_noop || m[u].connected)) add(DFO, u, x);
            if ((al & bit(EMIT)) && ne < cfg.emitdepth) add(EMIT, x, 0);
            if ((al & bit(KILL))) add(KILL, x, 0);
        } else {
            if (al & bit(NEW)) add(NEW, x, 0);
            if ((al & bit(MVC)) && (!nested || cfg.nestmove)) for (int y = 0; y < cfg.nsig; ++y) if (sigalive[y]) add(MVC, x, y);
        }
        if ((!nested || cfg.nestmove) && cfg.nsig == 2 && sigalive[0] && sigalive[1]) {
            if (al & bit(MVA)) { add(MVA, 0, 1); add(MVA, 1, 0); }
            if (al & bit(SWPSIG)) add(SWPSIG, 0, 1);
        }
        if ((!nested || cfg.nestmove) && (al & bit(MVA))) for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) { add(MVA, x, x); break; }      // self-assignment
        if (al & bit(BLK)) for (int i = 0; i < nc; ++i) if (cfg.allow_noop || (mc[i] >= 0 && m[mc[i]].connected && !m[mc[i]].blocked)) add(BLK, i, 0);
        if (al & bit(UNB)) for (int i = 0; i < nc; ++i) if (cfg.allow_noop || (mc[i] >= 0 && m[mc[i]].connected && m[mc[i]].blocked)) add(UNB, i, 0);
        if (al & bit(DROP)) for (int o = 0; o < cfg.nobj; ++o) if (owners[o] > 0) add(DROP, o, 0);
        if (!cfg.uidregs) {
            int nr = cfg.nc;
            if (al & bit(CC)) for (int i = 0; i < nr; ++i) for (int j = 0; j < nr; ++j) if (i == j ? !i && mc[0] >= 0 : mc[i] != mc[j]) add(CC, i, j);
            if (al & bit(CM)) for (int i = 0; i < nr; ++i) for (int j = 0; j < nr; ++j) if (i != j && (mc[i] >= 0 || mc[j] >= 0)) add(CM, i, j);
            if (al & bit(CS)) for (int i = 0; i < nr; ++i) for (int j = i; j < nr; ++j) if (i == j ? !i && mc[0] >= 0 : mc[i] != mc[j]) add(CS, i, j);
            if (al & bit(CX)) for (int i = 0; i < nr; ++i) if (mc[i] >= 0) add(CX, i, 0);
            if (al & bit(CCT)) for (int i = 0; i < nr; ++i) if (mc[i] >= 0) add(CCT, i, 0);
            if (al & bit(CTMP)) for (int i = 0; i < nr; ++i) if (mc[i] >= 0) add(CTMP, i, 0);
        }
        int nr = cfg.uidregs ? nu : cfg.nc;
        for (int i = 0; i < cfg.ns; ++i) {
            if (al & bit(SC)) for (int j = 0; j < nr; ++j) if (mc[j] >= 0 || ms[i] >= 0) add(SC, i, j);
            if (al & bit(SCM)) for (int j = 0; j < nr; ++j) if (mc[j] >= 0) add(SCM, i, j);
            if (al & bit(SM)) for (int j = 0; j < cfg.ns; ++j) if (i != j && (ms[i] >= 0 || ms[j] >= 0)) add(SM, i, j);
            if (al & bit(SS)) for (int j = i; j < cfg.ns; ++j) if (i == j ? !i && ms[0] >= 0 : ms[i] != ms[j]) add(SS, i, j);
            if (al & bit(SREL)) for (int j = 0; j < nr; ++j) if (ms[i] >= 0) add(SREL, j, i);
            if (al & bit(SX)) if (ms[i] >= 0) add(SX, i, 0);
            if (al & bit(CSL)) for (int j = 0; j < nr; ++j) if (ms[i] >= 0) add(CSL, j, i);
            if (al & bit(STMP)) if (ms[i] >= 0) add(STMP, i, 0);
            if (al & bit(SWC)) for (int j = 0; j < nr; ++j) if (ms[i] != mc[j]) add(SWC, i, j);
        }
        for (int i = 0; i < cfg.nb; ++i) {
            if (al & bit(BK)) for (int j = 0; j < nr; ++j) if (mc[j] >= 0 || mb[i] >= 0) add(BK, i, j);
            if (al & bit(BM)) for (int j = 0; j < cfg.nb; ++j) if (i == j ? !i && mb[0] >= 0 : mb[i] >= 0 || mb[j] >= 0) add(BM, i, j);
            if (al & bit(BS)) for (int j = i; j < cfg.nb; ++j) if (i == j ? !i && mb[0] >= 0 : mb[i] != mb[j]) add(BS, i, j);
            if (al & bit(BX)) if (mb[i] >= 0) add(BX, i, 0);
            if (al & bit(BTMP)) if (mb[i] >= 0) add(BTMP, i, 0);
        }
        if ((al & bit(THROW)) && nested && ne) add(THROW, 0, 0);
        if (n > 120) fail("harness: too many operations");
        return n;
    }

    static World* armedw;
    static bool on_alloc() { World* w = WP<R>::w; if (!w->armed || w->faultleft <= 0) return false; if (!choose(2)) return false; --w->faultleft; w->armed = false; w->injected = 1; note("  [out of memory]\n"); return true; }
    void arm() { injected = 0; if (faultleft > 0) { armed = true; fault_point = &World::on_alloc; } }
    void disarm() { armed = false; fault_point = nullptr; }

    void makeobj(int o) { if (!objmade[o]) { objmade[o] = true; own[o] = std::make_shared<O>(o); wown[o] = own[o]; owners[o] = 1; } }

    sig::connection connect(int u, int kind, int g, int x)
    {
        Sig& q = *sg[x];
        switch (kind) {
        case K_FN: { Fn<R> f(u, g); arm(); auto k = q.connect(f); disarm(); return k; }
        case K_TSHARED: { arm(); auto k = q.connect(pmf(u), own[g]); disarm(); return k; }
        case K_TWEAK: { typename Sig::slot_type sl(pmf(u), wown[g]); arm(); auto k = q.connect(sl); disarm(); return k; }
        case K_TCUST: { const Handle<R> h{own[g]}; arm(); auto k = q.connect(pmf(u), h); disarm(); return k; }
        default: { arm(); auto k = q.connect(pmf(u), &raw); disarm(); return k; }
        }
    }
    sig::scoped_connection connect_scoped(int u, int kind, int g, int x)
    {
        Sig& q = *sg[x];
        switch (kind) {
        case K_FN: { Fn<R> f(u, g); arm(); auto k = q.connect_scoped(f); disarm(); return k; }
        case K_TSHARED: { arm(); auto k = q.connect_scoped(pmf(u), own[g]); disarm(); return k; }
        case K_TWEAK: { typename Sig::slot_type sl(pmf(u), wown[g]); arm(); auto k = q.connect_scoped(sl); disarm(); return k; }
        case K_TCUST: { arm(); auto k = q.connect_scoped(pmf(u), Handle<R>{own[g]}); disarm(); return k; }
        default: { arm(); auto k = q.connect_scoped(pmf(u), &raw); disarm(); return k; }
        }
    }
    void undo_slot() { --nu; m[nu].used = false; m[nu].connected = false; }

    int emit(int x)
    {
        Em& e = es[ne]; memset(&e, 0, sizeof e);
        e.sig = x; e.n = nlist[x]; memcpy(e.snap, list[x], sizeof e.snap); e.id = ++emitid; e.last = -1;
        int at = ne++;
        int r = -1; bool thrown = false; int tv = 0;
        try { r = Ret<R>::get((*sg[x])(100 + e.id)); }
        catch (SlotErr& q) { thrown = true; tv = q.v; }
        Em& f = es[at];
        if (f.thrown != thrown) bad(M_EXC, thrown ? "an emission threw without reason" : "the exception of a slot did not reach the emitter");
        if (thrown && tv != f.last) bad(M_EXC, "another exception than the slot's reached the emitter");
        if (!thrown) {
            if (!f.disturbed) { int p = predicted(f); if (p >= 0) bad(M_MEMBER, "a connected, unblocked slot was not invoked", f.snap[p]); }
            else if (cbleft == cfg.cb && dtleft == cfg.dt) for (int i = 0; i < f.n; ++i) if (invocable(f.snap[i]) && !(f.invoked >> f.snap[i] & 1)) bad(M_MEMBER, "a connected, unblocked slot was not invoked", f.snap[i]);
            int want = f.last; if (std::is_void<R>::value) want = -1;
            if (r != want && !f.disturbed) bad(M_RESULT, "the emission did not return the value of the last slot invoked");
        }
        --ne;
        return r;
    }

    void perform(Op o)
    {
        step();
        note("%s(%d,%d)%s\n", opn[o.k], o.a, o.b, "");
        switch (o.k) {
        case CONN: case SCONN: {
            int r = o.a & 15, x = o.a >> 4, kind = o.b & 15, g = o.b >> 4;
            if (tracked(kind)) makeobj(g);
            int u = newslot(kind, g, x);
            bool thrown = false; int what = 0;
            // the slot joins the model's list before the call: a re-entrant call cannot happen inside connect
            if (o.k == CONN) {
                try { auto k = connect(u, kind, g, x); addlist(u); mc[r] = u; c[r] = std::move(k); }
                catch (std::bad_alloc&) { thrown = true; what = 1; } catch (CopyErr&) { thrown = true; what = 2; }
            } else {
                try { auto k = connect_scoped(u, kind, g, x); addlist(u); mdisc(ms[r]); ms[r] = u; s[r] = std::move(k); }
                catch (std::bad_alloc&) { thrown = true; what = 1; } catch (CopyErr&) { thrown = true; what = 2; }
            }
            int inj = injected; injected = 0; disarm();
            if (thrown != (inj != 0)) bad(M_EXC, thrown ? "connect threw without reason" : "the failure of connect did not reach the caller");
            if (thrown && what != inj) bad(M_EXC, "connect threw another exception than the failure");
            if (thrown) { undo_slot(); if (live[nu]) bad(M_LEAK | M_LIFE, "a failed connect keeps the callable", nu); }
            break; }
        case DISC: { bool w = mdisc(mc[o.a]); bool r = c[o.a].disconnect(); if (r != w) bad(M_RET, w ? "disconnect() of a connected slot returned false" : "disconnect() returned true although nothing was connected", mc[o.a]); break; }
        case SDISC: { bool w = mdisc(ms[o.a]); bool r = s[o.a].disconnect(); if (r != w) bad(M_RET, w ? "disconnect() of a connected slot returned false" : "disconnect() returned true although nothing was connected", ms[o.a]); break; }
        case DF: case DFO: {
            MS sm[MAXU]; int sl[NSIG][MAXU], sn[NSIG]; memcpy(sm, m, sizeof m); memcpy(sl, list, sizeof list); memcpy(sn, nlist, sizeof nlist);
            size_t w = 0; int x = o.b;
            for (int i = 0; i < nlist[x];) { int u = list[x][i]; bool eq = o.k == DF ? m[u].kind == K_FN && m[u].grp == o.a : u == o.a; if (eq) { ++w; mdisc(u); } else ++i; }
            size_t r = 0; bool thrown = false; int what = 0;
            try {
                if (o.k == DF) { Fn<R> f(-1, o.a); arm(); r = sg[x]->disconnect(f); disarm(); }
                else if (m[o.a].kind == K_RAW) { arm(); r = sg[x]->disconnect(pmf(o.a), &raw); disarm(); }
                else if (m[o.a].kind == K_TCUST) { const Handle<R> h{own[m[o.a].obj]}; arm(); r = sg[x]->disconnect(pmf(o.a), h); disarm(); }
                else if (m[o.a].kind == K_TSHARED) { arm(); r = sg[x]->disconnect(pmf(o.a), own[m[o.a].obj]); disarm(); }
                else { typename Sig::slot_type sl2(pmf(o.a), wown[m[o.a].obj]); arm(); r = sg[x]->disconnect(sl2); disarm(); }
            } catch (std::bad_alloc&) { thrown = true; what = 1; } catch (CopyErr&) { thrown = true; what = 2; }
            int inj = injected; injected = 0; disarm();
            if (thrown != (inj != 0)) bad(M_EXC, thrown ? "disconnect threw without reason" : "the failure of disconnect did not reach the caller");
            if (thrown && what != inj) bad(M_EXC, "disconnect threw another exception than the failure");
            if (thrown) { memcpy(m, sm, sizeof m); memcpy(list, sl, sizeof list); memcpy(nlist, sn, sizeof nlist); }
            else if (r != w) bad(M_COUNT, "disconnect by callable returned another number than it had to remove");
            break; }
        case BLK: if (mc[o.a] >= 0) m[mc[o.a]].blocked = true; c[o.a].block(); break;
        case UNB: if (mc[o.a] >= 0) m[mc[o.a]].blocked = false; c[o.a].unblock(); break;
        case EMIT: emit(o.a); break;
        case DROP: owners[o.a] = 0; own[o.a].reset(); break;
        case KILL: {
            for (int i = 0; i < nlist[o.a]; ++i) m[list[o.a][i]].connected = false;
            nlist[o.a] = 0; sigalive[o.a] = false; ++nomove; { Sig* p = sg[o.a].release(); delete p; } --nomove; break; }
        case NEW: sg[o.a].reset(new Sig); sigalive[o.a] = true; break;
        case MVC: {
            nlist[o.a] = nlist[o.b]; memcpy(list[o.a], list[o.b], sizeof list[0]); nlist[o.b] = 0; sigalive[o.a] = true;
            for (int i = 0; i < nlist[o.a]; ++i) m[list[o.a][i]].sig = o.a;
            ++nomove; sg[o.a].reset(new Sig(std::move(*sg[o.b]))); --nomove; break; }
        case MVA: {
            if (o.a == o.b) { Sig& self = *sg[o.a]; self = std::move(*sg[o.b]); break; }
            for (int i = 0; i < nlist[o.a]; ++i) m[list[o.a][i]].connected = false;
            nlist[o.a] = nlist[o.b]; memcpy(list[o.a], list[o.b], sizeof list[0]); nlist[o.b] = 0;
            for (int i = 0; i < nlist[o.a]; ++i) m[list[o.a][i]].sig = o.a;
            ++nomove; { Sig& ret = (*sg[o.a] = std::move(*sg[o.b])); if (&ret != sg[o.a].get()) fail("move assignment does not return its left operand"); } --nomove; break; }
        case SWPSIG: {
            for (int i = 0; i < MAXU; ++i) std::swap(list[0][i], list[1][i]); std::swap(nlist[0], nlist[1]);
            for (int g = 0; g < 2; ++g) for (int i = 0; i < nlist[g]; ++i) m[list[g][i]].sig = g;
            ++nomove; { using std::swap; swap(*sg[0], *sg[1]); } --nomove; break; }
        case CC: mc[o.a] = mc[o.b]; c[o.a] = c[o.b]; break;
        case CM: mc[o.a] = mc[o.b]; mc[o.b] = -1; c[o.a] = std::move(c[o.b]); break;
        case CS: std::swap(mc[o.a], mc[o.b]); { using std::swap; swap(c[o.a], c[o.b]); } break;
        case CX: mc[o.a] = -1; c[o.a] = sig::connection(); break;
        case CCT: { sig::connection t(c[o.a]); if (t.connected() != c[o.a].connected() || t.valid() != c[o.a].valid() || t.blocked() != c[o.a].blocked()) bad(M_CONN, "a copy of a connection reports another state"); break; }
        case CTMP: { sig::connection t(std::move(c[o.a])); if (c[o.a].valid() || c[o.a].connected() || c[o.a].disconnect()) bad(M_VALID, "a moved-from connection still refers to its slot"); c[o.a] = std::move(t); break; }
        case SC: { int u = mc[o.b]; mdisc(ms[o.a]); ms[o.a] = u; s[o.a] = sig::scoped_connection(c[o.b]); break; }
        case SCM: { int u = mc[o.b]; mc[o.b] = -1; mdisc(ms[o.a]); ms[o.a] = u; s[o.a] = sig::scoped_connection(std::move(c[o.b])); break; }
        case SM: { mdisc(ms[o.a]); ms[o.a] = ms[o.b]; ms[o.b] = -1; s[o.a] = std::move(s[o.b]); break; }
        case SS: std::swap(ms[o.a], ms[o.b]); { using std::swap; swap(s[o.a], s[o.b]); } break;
        case SREL: mc[o.a] = ms[o.b]; ms[o.b] = -1; c[o.a] = s[o.b].release(); break;
        case SX: { int u = ms[o.a]; ms[o.a] = -1; mdisc(u); s[o.a] = sig::scoped_connection(); break; }
        case CSL: mc[o.a] = ms[o.b]; c[o.a] = s[o.b]; break;
        case STMP: { int u = ms[o.a]; ms[o.a] = -1; mdisc(u); { sig::scoped_connection t(std::move(s[o.a])); } break; }
        case SWC: std::swap(ms[o.a], mc[o.b]); s[o.a].swap(c[o.b]); break;
        case BK: { int u = mc[o.b]; if (u >= 0) m[u].blockers++; if (mb[o.a] >= 0) m[mb[o.a]].blockers--; mb[o.a] = u; b[o.a] = c[o.b].blocker(); break; }
        case BM: { if (o.a == o.b) { auto& self = b[o.a]; self = std::move(b[o.b]); break; } if (mb[o.a] >= 0) m[mb[o.a]].blockers--; mb[o.a] = mb[o.b]; mb[o.b] = -1; b[o.a] = std::move(b[o.b]); break; }
        case BS: std::swap(mb[o.a], mb[o.b]); { using std::swap; swap(b[o.a], b[o.b]); } break;
        case BX: if (mb[o.a] >= 0) m[mb[o.a]].blockers--; mb[o.a] = -1; b[o.a] = sig::connection_blocker(); break;
        case BTMP: if (mb[o.a] >= 0) m[mb[o.a]].blockers--; mb[o.a] = -1; { sig::connection_blocker t(std::move(b[o.a])); } break;
        default: break;
        }
        check();
    }

    void query(const sig::connection& k, int u, const char* what)
    {
        bool v = k.valid(), cn = k.connected(), bl = k.blocked();
        if (u < 0) {
            if (cn) bad(M_CONN, "an empty handle reports connected"); if (v) bad(M_VALID, "an empty handle reports valid"); if (bl) bad(M_BLOCKQ, "an empty handle reports blocked");
            return;
        }
        (void)what;
        if (cn != visible(u)) {
            if (expired(u) && m[u].connected) bad(M_CONN | M_OBJ, "a slot whose object is gone reports connected", u);
            else bad(M_CONN, cn ? "a disconnected slot reports connected" : "a connected slot reports not connected", u);
        }
        if (m[u].connected) { if (bl != isblocked(u)) bad(M_BLOCKQ, bl ? "a slot that is not blocked reports blocked" : "a blocked slot reports not blocked", u); }
        if (m[u].connected || m[u].running) { if (!v) bad(M_VALID, "the handle of an existing slot reports not valid", u); }
        else if (!reachable(u) && !indt) { if (v) bad(M_VALID | M_LIFE, "the handle of a slot that no longer exists reports valid", u); if (bl) bad(M_BLOCKQ, "the handle of a slot that no longer exists reports blocked", u); }
    }
    void check()
    {
        int nc = cfg.uidregs ? nu : cfg.nc;
        for (int i = 0; i < nc; ++i) query(c[i], mc[i], "connection");
        if (!indt) for (int i = 0; i < cfg.ns; ++i) query(s[i], ms[i], "scoped");   // (in a destructor the assignment to s[i] may be under way)
        for (int u = 0; u < nu; ++u) if (m[u].kind == K_FN) {
            if (m[u].connected || m[u].running) { if (live[u] <= 0) bad(M_LIFE, "the callable of a connected slot is gone", u); }
            else if (!reachable(u) && !indt && live[u] != 0) bad(M_LIFE, "a callable is retained after its slot was disconnected", u);
        }
        if (!indt) for (int o = 0; o < cfg.nobj; ++o) if (objmade[o]) {
            if (objlive[o] != (objalive(o) ? 1 : 0)) bad(M_OBJ, objlive[o] ? "a slot keeps its object alive" : "an object was destroyed too early");
        }
    }

    void run()
    {
        alloc0 = live_allocs();
        for (int x = 0; x < cfg.nsig; ++x) { sg[x].reset(new Sig); sigalive[x] = true; }
        { int f = faultleft; faultleft = 0; for (int i = 0; i < cfg.pre; ++i) { note("setup "); perform(Op{CONN, (uint8_t)nu, (uint8_t)(cfg.prekind[i] | cfg.pregrp[i] << 4)}); } faultleft = f; }
        for (int d = 0; d < cfg.depth; ++d) {
            Op ops[128]; int n = build(cfg.ops, ops, false);
            if (!n) break;
            int k = choose(n + (d ? 1 : 0));           // every length: the history may stop here
            if (d) { if (!k) break; --k; }
            perform(ops[k]);
        }
        finish();
    }
    void finish()
    {
        finishing = false; int cb = cbleft, dt = dtleft; cbleft = 0; dtleft = 0; faultleft = 0; (void)cb; (void)dt;
        note("final emissions\n");
        for (int k = 0; k < 2; ++k) for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) { emit(x); check(); }
        // blockers go, everything left is unblocked
        for (int i = 0; i < cfg.nb; ++i) { if (mb[i] >= 0) m[mb[i]].blockers--; mb[i] = -1; b[i] = sig::connection_blocker(); }
        int nc = cfg.uidregs ? nu : cfg.nc;
        for (int i = 0; i < nc; ++i) if (mc[i] >= 0 && m[mc[i]].blocked) { m[mc[i]].blocked = false; c[i].unblock(); }
        check();
        note("emission after unblocking everything\n");
        for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) { emit(x); check(); }
        note("destruction\n");
        for (int i = 0; i < cfg.ns; ++i) if (i & 1) { int u = ms[i]; ms[i] = -1; mdisc(u); { sig::scoped_connection t(std::move(s[i])); } check(); }
        for (int x = 0; x < cfg.nsig; ++x) if (sigalive[x]) {
            for (int i = 0; i < nlist[x]; ++i) m[list[x][i]].connected = false;
            nlist[x] = 0; sigalive[x] = false; sg[x].reset(); check();
        }
        for (int i = 0; i < nc; ++i) { if (c[i].disconnect()) bad(M_RET, "disconnect() returned true after the signal was destroyed"); c[i].block(); c[i].unblock(); { auto q = c[i].blocker(); } c[i] = sig::connection(); mc[i] = -1; }
        for (int i = 0; i < cfg.ns; ++i) { if (s[i].disconnect()) bad(M_RET, "disconnect() returned true after the signal was destroyed"); s[i] = sig::scoped_connection(); ms[i] = -1; }
        check();
        for (int u = 0; u < nu; ++u) if (live[u]) bad(M_LIFE | M_LEAK, "a callable was never destroyed", u);
        for (int o = 0; o < NOBJ; ++o) { own[o].reset(); wown[o].reset(); if (objlive[o]) bad(M_OBJ | M_LEAK, "an object was never destroyed"); }
        finishing = true;
        if (live_allocs() != alloc0) bad(M_LEAK, "memory was leaked");
    }
};

template<typename R> void go(const Cfg& f)
{
    // the world itself lives in static storage: allocations are those of the library
    static typename std::aligned_storage<sizeof(World<R>), alignof(World<R>)>::type mem;
    World<R>* w = new (&mem) World<R>(f);
    w->run();
    w->~World<R>();
}
void go2(const Cfg& f) { if (choose(2)) go<void>(f); else go<int>(f); }

// ------------------------------------------------------------------ suites
void c01(bool th)
{
    Cfg f; f.mask = M_MEMBER; f.allow_noop = false;
    switch (choose(4)) {
    case 0: f.ops = bit(CONN) | bit(DISC) | bit(DF) | bit(BLK) | bit(UNB) | bit(EMIT); f.depth = th ? 8 : 7; f.maxu = 4; f.groups = 2; f.kinds = 1; break;
    case 1: f.pre = 3; f.pregrp[1] = 1; f.ops = bit(CONN) | bit(SCONN) | bit(DISC) | bit(SDISC) | bit(SX) | bit(DF) | bit(BLK) | bit(UNB) | bit(EMIT); f.ns = 1; f.maxu = 5; f.groups = 2; f.depth = th ? 7 : 6; break;
    case 2: f.pre = 5; for (int i = 0; i < 5; ++i) f.pregrp[i] = (i == 1 || i == 4); f.ops = bit(DISC) | bit(DF) | bit(BLK) | bit(UNB); f.maxu = 5; f.depth = th ? 7 : 6; break;
    case 3: f.pre = 3; f.prekind[0] = K_RAW; f.prekind[1] = K_TSHARED; f.prekind[2] = K_TWEAK; f.pregrp[2] = 1; f.nobj = 2; f.kinds = 1 | 1 << K_RAW; f.groups = 1; f.ops = bit(CONN) | bit(DISC) | bit(DFO) | bit(BLK) | bit(UNB) | bit(DROP); f.maxu = 5; f.depth = th ? 7 : 6; break;
    }
    go2(f);
}
void c02(bool th)
{
    Cfg f; f.mask = M_ORDER; f.allow_noop = false;
    switch (choose(4)) {
    case 0: f.ops = bit(CONN) | bit(DISC) | bit(DF); f.depth = th ? 9 : 8; f.maxu = 6; f.groups = 2; break;
    case 1: f.pre = 6; for (int i = 0; i < 6; ++i) f.pregrp[i] = choose(3); f.groups = 3; f.maxu = 8; f.ops = bit(CONN) | bit(DISC) | bit(DF); f.depth = th ? 4 : 3; break;
    case 2: f.pre = 4; f.prekind[1] = K_TSHARED; f.prekind[2] = K_TWEAK; f.pregrp[2] = 1; f.prekind[3] = K_RAW; f.nobj = 2; f.groups = 1; f.maxu = 5; f.ops = bit(CONN) | bit(DISC) | bit(DFO) | bit(DROP) | bit(BLK) | bit(UNB) | bit(EMIT); f.depth = th ? 7 : 6; break;
    case 3: f.pre = 4; f.ops = bit(CONN) | bit(DISC) | bit(BLK) | bit(UNB) | bit(SC) | bit(SX) | bit(EMIT); f.groups = 1; f.ns = 1; f.maxu = 5; f.depth = th ? 6 : 5; break;
    }
    go2(f);
}
void c05(bool th)
{
    Cfg f; f.mask = M_ALL & ~(M_VALID); f.groups = 2; f.nb = 1; f.ns = 1;
    uint64_t cb = bit(CONN) | bit(DISC) | bit(DF) | bit(BLK) | bit(UNB) | bit(EMIT) | bit(KILL) | bit(BK) | bit(SC);
    f.allow_noop = false;
    switch (choose(6)) {
    case 0: f.pre = 3; f.pregrp[2] = 1; f.maxu = 5; f.cbops = cb; f.ops = bit(EMIT); f.depth = 1; f.cb = th ? 5 : 4; f.emitdepth = 2; break;
    case 1: f.pre = 3; f.pregrp[1] = 1; f.maxu = 5; f.cbops = cb; f.ops = bit(EMIT) | bit(BLK) | bit(CONN) | bit(DISC); f.depth = th ? 4 : 3; f.cb = 2; f.emitdepth = 3; break;
    case 2: f.pre = 3; f.pregrp[2] = 1; f.maxu = 5; f.dtops = bit(CONN) | bit(DISC) | bit(DF) | bit(EMIT) | bit(BLK); f.cbops = bit(DISC) | bit(DF) | bit(KILL) | bit(EMIT); f.ops = bit(EMIT) | bit(DISC) | bit(DF) | bit(SC) | bit(SX) | bit(KILL); f.depth = 2; f.cb = th ? 3 : 2; f.dt = th ? 4 : 3; break;
    case 3: f.pre = 3; f.prekind[0] = K_TSHARED; f.prekind[1] = K_TWEAK; f.pregrp[1] = 1; f.nobj = 2; f.maxu = 4; f.groups = 1; f.cbops = cb | bit(DROP) | bit(DFO); f.ops = bit(EMIT) | bit(DROP); f.depth = 2; f.cb = th ? 4 : 3; break;
    case 4: f.pre = 2; f.nsig = 2; f.maxu = 4; f.groups = 1; f.cbops = bit(EMIT) | bit(CONN) | bit(DISC) | bit(KILL); f.ops = bit(EMIT) | bit(CONN); f.depth = th ? 4 : 3; f.cb = th ? 4 : 3; f.emitdepth = 3; break;
    case 5: f.pre = 5; for (int i = 0; i < 5; ++i) f.pregrp[i] = i & 1; f.maxu = 6; f.cbops = bit(DISC) | bit(DF) | bit(CONN) | bit(BLK); f.ops = bit(EMIT); f.depth = 1; f.cb = th ? 4 : 3; break;
    }
    go2(f);
}
void c08(bool th)
{
    Cfg f; f.mask = M_RET | M_CONN | M_COUNT | M_MEMBER; f.groups = 2; f.kinds = 1; f.uidregs = false; f.nc = 2; f.ns = 1;
    switch (choose(3)) {
    case 0: f.ops = bit(CONN) | bit(CC) | bit(DISC) | bit(SC) | bit(SX) | bit(SDISC) | bit(DF) | bit(EMIT); f.groups = 1; f.maxu = 3; f.depth = th ? 8 : 6; break;
    case 1: f.uidregs = true; f.pre = 3; f.pregrp[2] = 1; f.maxu = 4; f.ops = bit(CONN) | bit(DISC) | bit(DF) | bit(SC) | bit(SX) | bit(EMIT) | bit(KILL); f.cbops = bit(DISC) | bit(DF) | bit(SC) | bit(EMIT) | bit(CONN) | bit(KILL); f.depth = th ? 5 : 4; f.cb = th ? 3 : 2; break;
    case 2: f.uidregs = true; f.pre = 3; f.prekind[0] = K_TSHARED; f.prekind[2] = K_TWEAK; f.pregrp[2] = 1; f.nobj = 2; f.groups = 1; f.maxu = 4; f.ops = bit(CONN) | bit(DISC) | bit(DFO) | bit(DROP) | bit(EMIT) | bit(SC) | bit(SX); f.depth = th ? 7 : 6; break;
    }
    go2(f);
}
void c10(bool th)
{
    Cfg f; f.mask = M_OBJ | M_MEMBER | M_ORDER; f.groups = 1; f.nobj = 2;
    switch (choose(3)) {
    case 0: f.kinds = choose(2) ? 1 | 1 << K_TSHARED | 1 << K_TWEAK : 1 | 1 << K_TCUST | 1 << K_TSHARED; f.maxu = 4; f.ops = bit(CONN) | bit(DROP) | bit(DISC) | bit(EMIT); f.depth = th ? 7 : 6; f.allow_noop = false; break;
    case 1: f.pre = 3; f.prekind[0] = K_TSHARED; f.prekind[1] = K_TWEAK; f.pregrp[1] = choose(2); f.prekind[2] = choose(4); if (f.prekind[2] == K_RAW) f.prekind[2] = K_TCUST; f.kinds = 1 << K_TSHARED; f.maxu = 4; f.ops = bit(EMIT) | bit(DROP) | bit(DISC) | bit(BLK) | bit(UNB); f.cbops = bit(DROP) | bit(DISC) | bit(EMIT) | bit(CONN) | bit(KILL) | bit(BLK) | bit(DFO); f.cb = th ? 4 : 3; f.depth = 2; f.emitdepth = 2; f.allow_noop = false; break;
    case 2: f.pre = 3; f.prekind[0] = K_TSHARED; f.prekind[1] = K_FN; f.prekind[2] = K_TWEAK; f.ns = 1; f.nsig = 2; f.ops = bit(EMIT) | bit(DROP) | bit(DISC) | bit(SC) | bit(SX) | bit(DFO) | bit(KILL) | bit(MVA) | bit(BLK); f.maxu = 4; f.depth = th ? 6 : 5; f.allow_noop = false; break;
    }
    go2(f);
}
void c11(bool th)
{
    Cfg f; f.mask = M_LIFE | M_LEAK; f.groups = 2; f.ns = 1; f.nb = 1; f.allow_noop = false;
    switch (choose(4)) {
    case 0: f.ops = bit(CONN) | bit(SCONN) | bit(DISC) | bit(DF) | bit(SX) | bit(EMIT) | bit(KILL) | bit(BLK) | bit(BK); f.maxu = 3; f.depth = th ? 7 : 6; break;
    case 1: f.pre = 3; f.pregrp[2] = 1; f.maxu = 4; f.groups = 2; f.cbops = bit(DISC) | bit(DF) | bit(EMIT) | bit(KILL) | bit(CONN) | bit(SC); f.ops = bit(EMIT) | bit(DISC) | bit(DF) | bit(BLK); f.depth = 2; f.cb = th ? 4 : 3; f.emitdepth = 3; break;
    case 2: f.pre = 2; f.nsig = 2; f.groups = 1; f.maxu = 4; f.ops = bit(CONN) | bit(MVC) | bit(MVA) | bit(KILL) | bit(NEW) | bit(DISC) | bit(SWPSIG); f.depth = th ? 6 : 5; break;
    case 3: f.pre = 2; f.groups = 1; f.maxu = 4; f.cbops = bit(DISC) | bit(DF) | bit(THROW) | bit(EMIT); f.ops = bit(EMIT) | bit(CONN) | bit(DISC); f.depth = 3; f.cb = 2; break;
    }
    go2(f);
}
void c12(bool th)
{
    Cfg f; f.mask = M_CONN | M_VALID | M_RET | M_MEMBER | M_BLOCKQ; f.uidregs = false; f.groups = 1; f.allow_noop = true;
    switch (choose(4)) {
    case 0: f.nc = 2; f.ns = 1; f.maxu = 2; f.ops = bit(CONN) | bit(DISC) | bit(SDISC) | bit(CC) | bit(CM) | bit(CS) | bit(CX) | bit(SC) | bit(SCM) | bit(SREL) | bit(SX) | bit(CSL) | bit(SWC) | bit(CCT) | bit(CTMP); f.depth = th ? 6 : 5; break;
    case 1: f.nc = 1; f.ns = 2; f.maxu = 3; f.ops = bit(CONN) | bit(SCONN) | bit(SC) | bit(SCM) | bit(SM) | bit(SS) | bit(SREL) | bit(SX) | bit(STMP) | bit(SDISC) | bit(DISC); f.depth = th ? 6 : 5; break;
    case 2: f.nc = 2; f.ns = 2; f.maxu = 2; f.ops = bit(CONN) | bit(SCONN) | bit(SM) | bit(SS) | bit(SREL) | bit(STMP) | bit(DISC) | bit(KILL) | bit(DF) | bit(EMIT); f.depth = th ? 6 : 5; break;
    case 3: f.uidregs = true; f.pre = 3; f.prekind[1] = K_TSHARED; f.nobj = 1; f.ns = 1; f.maxu = 3; f.ops = bit(EMIT) | bit(DROP) | bit(DISC) | bit(SC) | bit(SX); f.cbops = bit(DISC) | bit(SC) | bit(SX) | bit(KILL) | bit(DF) | bit(DROP); f.cb = th ? 4 : 3; f.depth = th ? 4 : 3; break;
    }
    go2(f);
}
void c13(bool th)
{
    Cfg f; f.mask = M_BLOCKQ | M_MEMBER | M_ORDER | M_CONN | M_RESULT; f.groups = 1;
    uint64_t bl = bit(BLK) | bit(UNB) | bit(BK) | bit(BX) | bit(BM) | bit(BTMP) | bit(BS);
    switch (choose(4)) {
    case 0: f.pre = 2; f.nb = 2; f.maxu = 2; f.ops = bl | bit(EMIT); f.depth = th ? 7 : 6; f.allow_noop = false; break;
    case 1: f.pre = 1; f.nb = 2; f.maxu = 2; f.uidregs = false; f.nc = 2; f.ops = bl | bit(CC) | bit(CONN) | bit(DISC); f.depth = th ? 6 : 5; break;
    case 2: f.pre = 3; f.nb = 1; f.maxu = 4; f.ops = bit(BLK) | bit(UNB) | bit(BK) | bit(BX) | bit(EMIT) | bit(DISC); f.cbops = f.ops; f.cb = th ? 4 : 3; f.depth = 2; f.allow_noop = false; break;
    case 3: f.pre = 3; f.prekind[0] = K_TSHARED; f.prekind[1] = K_TWEAK; f.prekind[2] = K_RAW; f.pregrp[1] = 1; f.nobj = 2; f.nb = 1; f.nsig = 2; f.maxu = 3; f.ops = bit(BLK) | bit(UNB) | bit(BK) | bit(BX) | bit(DISC) | bit(MVA) | bit(DROP) | bit(KILL); f.depth = th ? 6 : 5; f.allow_noop = false; break;
    }
    go2(f);
}
void c15(bool th)
{
    Cfg f; f.mask = M_CONN | M_MEMBER | M_ORDER | M_RET | M_BLOCKQ | M_COUNT | M_VALID | M_LIFE; f.groups = 1; f.nsig = 2; f.allow_noop = true;
    uint64_t mv = bit(MVC) | bit(MVA) | bit(SWPSIG) | bit(KILL) | bit(NEW);
    switch (choose(5)) {
    case 4: f.pre = 3; f.pregrp[2] = 1; f.groups = 2; f.maxu = 4; f.nestmove = true; f.allow_noop = false; f.ops = bit(EMIT) | bit(MVA) | bit(DISC); f.cbops = bit(MVC) | bit(MVA) | bit(SWPSIG) | bit(KILL) | bit(NEW) | bit(DISC) | bit(DF) | bit(EMIT) | bit(CONN); f.cb = th ? 4 : 3; f.emitdepth = 2; f.depth = 2; break;
    case 0: f.pre = 2; f.maxu = 4; f.ops = mv | bit(CONN) | bit(DISC) | bit(EMIT); f.depth = th ? 6 : 5; break;
    case 1: f.pre = 3; f.pregrp[2] = 1; f.groups = 2; f.maxu = 4; f.ns = 1; f.nb = 1; f.ops = mv | bit(DISC) | bit(DF) | bit(BLK) | bit(UNB) | bit(SC) | bit(SX) | bit(BK) | bit(BX); f.allow_noop = false; f.depth = th ? 6 : 5; break;
    case 2: f.pre = 3; f.prekind[1] = K_TSHARED; f.nobj = 1; f.maxu = 4; f.ops = mv | bit(EMIT) | bit(DROP) | bit(DISC); f.cbops = bit(KILL) | bit(EMIT) | bit(DISC) | bit(CONN); f.cb = th ? 3 : 2; f.depth = th ? 5 : 4; break;
    case 3: f.nsig = 1; f.pre = 3; f.maxu = 4; f.ns = 1; f.nb = 1; f.ops = bit(EMIT); f.cbops = bit(KILL) | bit(DISC) | bit(BLK) | bit(UNB) | bit(SC) | bit(SX) | bit(BK) | bit(EMIT); f.cb = th ? 5 : 4; f.depth = 1; break;
    }
    go2(f);
}
void c16(bool th)
{
    Cfg f; f.mask = M_ALL; f.groups = 2; f.allow_noop = false;
    switch (choose(4)) {
    case 0: f.ops = bit(CONN) | bit(SCONN) | bit(DISC) | bit(DF) | bit(EMIT); f.ns = 1; f.maxu = 4; f.faults = 1; f.depth = th ? 6 : 5; break;
    case 1: f.pre = 3; f.pregrp[1] = 1; f.maxu = 6; f.ops = bit(EMIT) | bit(CONN); f.cbops = bit(CONN) | bit(DF) | bit(EMIT) | bit(THROW); f.cb = 2; f.depth = 2; f.faults = th ? 3 : 2; break;
    case 2: f.pre = 3; f.maxu = 5; f.ops = bit(EMIT) | bit(CONN) | bit(DISC) | bit(BLK); f.cbops = bit(THROW) | bit(CONN) | bit(DISC) | bit(DF) | bit(EMIT); f.depth = th ? 4 : 3; f.cb = th ? 4 : 3; break;
    case 3: f.kinds = 1 | 1 << K_TSHARED | 1 << K_TWEAK | 1 << K_RAW | 1 << K_TCUST; f.nobj = 1; f.groups = 1; f.maxu = 4; f.ops = bit(CONN) | bit(DFO) | bit(DF) | bit(EMIT) | bit(DROP); f.cbops = bit(THROW); f.cb = 1; f.faults = th ? 3 : 2; f.depth = th ? 5 : 4; break;
    }
    go2(f);
}
const SuiteS suites[] = {{"C01", c01}, {"C02", c02}, {"C05", c05}, {"C08", c08}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C15", c15}, {"C16", c16}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, sizeof suites / sizeof *suites); }
