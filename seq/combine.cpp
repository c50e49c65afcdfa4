// Engine S, C03: what an emission returns.  All arrangements of slots (kind and state), all ways a combiner can
// walk the positions (skip, dereference once or twice, stop, pre/post increment, through a copied iterator), and
// actions of slots that change the state of others during the emission.
#include "signals.hpp"
#include "rt.h"
#include <iterator>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace {
enum St : uint8_t { ACTIVE, BLOCKED, BLOCKER, EXPIRED, GONE, NST };
enum { MAXS = 5 };
enum Mode { DEFAULT, WALK, ALL };

// result types
template<typename R> struct Val;
template<> struct Val<int> { static int make(int u, int e) { return u == 1 ? 0 : u == 2 ? -e : e * 100 + u; }      // zero and negative results, too
    static bool eq(const int& r, int u, int e) { return r == make(u, e); } };
template<> struct Val<bool> { static bool make(int u, int e) { return (u + e) & 1; } static bool eq(const bool& r, int u, int e) { return r == make(u, e); } };
template<> struct Val<std::string> { static std::string make(int u, int e) { return u == 1 ? std::string() : "a rather long string result number " + std::to_string(e * 100 + u); } static bool eq(const std::string& r, int u, int e) { return r == make(u, e); } };
template<> struct Val<double> { static double make(int u, int e) { return u == 0 ? 0.0 : u == 1 ? -0.5 : 0.25 * (e * 100 + u); } static bool eq(const double& r, int u, int e) { return r == make(u, e); } };
enum class Em : unsigned char { none, a, b, c, d, e };
template<> struct Val<Em> { static Em make(int u, int) { return Em(u); } static bool eq(const Em& r, int u, int e) { return r == make(u, e); } };
int cells[MAXS];
template<> struct Val<int*> { static int* make(int u, int) { return u == 1 ? nullptr : &cells[u]; } static bool eq(int* const& r, int u, int e) { return r == make(u, e); } };
template<> struct Val<void> { static void make(int, int) {} };
// a type without default constructor that counts its instances
int insts;
struct Heavy { int v; explicit Heavy(int x) : v(x) { ++insts; } Heavy(const Heavy& o) : v(o.v) { ++insts; } Heavy(Heavy&& o) : v(o.v) { o.v = -1; ++insts; } Heavy& operator=(const Heavy& o) { v = o.v; return *this; } Heavy& operator=(Heavy&& o) { v = o.v; if (&o != this) o.v = -1; return *this; } ~Heavy() { --insts; } };
template<> struct Val<Heavy> { static Heavy make(int u, int e) { return Heavy(e * 100 + u); } static bool eq(const Heavy& r, int u, int e) { return r.v == e * 100 + u; } };

struct World {
    int n; St st[MAXS]; uint8_t kind[MAXS];
    sig::connection c[MAXS]; sig::connection_blocker b[MAXS];
    std::vector<int> order;           // slots of the signal, in order
    int emission = 0, depth = 0;
    int cb = 0;                       // actions left
    bool actions = false;
    // expectation set by the combiner
    int expect = -1;                  // slot that may be invoked now
    bool hit = false;
    int last = -1, last_em = 0;       // last slot invoked by the running emission
    std::vector<int> calls;
} *W;

bool invocable(int u) { return W->st[u] == ACTIVE; }
void (*emit_again)();

void act()
{
    if (W->cb <= 0) return;
    int k = choose(1 + 3 * W->n + (W->depth < 2));
    if (!k) return;
    --W->cb; --k;
    if (k == 3 * W->n) { note("  {emit again:\n"); emit_again(); note("  }\n"); return; }
    int u = k / 3;
    switch (k % 3) {
    case 0: note("  {block %d}\n", u); W->c[u].block(); if (W->st[u] == ACTIVE) W->st[u] = BLOCKED; break;
    case 1: note("  {unblock %d}\n", u); W->c[u].unblock(); if (W->st[u] == BLOCKED) W->st[u] = ACTIVE; break;
    case 2: note("  {disconnect %d}\n", u); W->c[u].disconnect(); if (W->st[u] != GONE) { W->st[u] = GONE; size_t i = 0; while (i < W->order.size() && W->order[i] != u) ++i; if (i < W->order.size()) { W->order[i] = W->order.back(); W->order.pop_back(); } } break;
    }
}
void called(int u)
{
    step();
    note("  slot %d invoked\n", u);
    if (W->expect != u) fail("slot %d was invoked when its position was not dereferenced", u);
    if (W->hit) fail("slot %d was invoked twice by one dereference", u);
    if (!invocable(u)) fail("slot %d was invoked although it is blocked, disconnected or expired", u);
    W->hit = true;
    W->last = u; W->last_em = W->emission;
    int e = W->emission, x = W->expect; bool h = W->hit; int l = W->last;
    act();
    W->emission = e; W->expect = x; W->hit = h; W->last = l;
}
int running_emission() { return W->emission; }

template<typename R> struct F { int u; R operator()() { called(u); return Val<R>::make(u, W->emission); } };
template<typename R> struct O { int u; R f() { called(u); return Val<R>::make(u, W->emission); } };

// the combiner under control of the enumeration
struct Report { int positions = 0; std::vector<std::pair<int, int>> got; int token = 0; };
template<typename R> struct Check {
    template<typename Opt> static void value(const Opt& o, int u, bool was)
    {
        if (bool(o) != was) fail(was ? "dereferencing slot %d yielded nothing" : "dereferencing slot %d that is blocked, disconnected or expired yielded a value", u);
        if (was && !Val<R>::eq(*o, u, W->emission)) fail("dereferencing slot %d yielded another value than the slot returned", u);
    }
};
template<> struct Check<void> { template<typename Opt> static void value(const Opt& o, int, bool) { if (o) fail("a void slot yielded a value"); } };

int nextid;
template<typename R> struct Walker {
    using result_type = Report;
    template<typename It> result_type operator()(It first, It last) const
    {
        static_assert(std::is_same<typename std::iterator_traits<It>::iterator_category, std::input_iterator_tag>::value, "input iterator");
        Report r; r.token = nextid;
        std::vector<int> snap = W->order;           // taken at the start of the emission by the caller
        snap = *snapshot;
        size_t i = 0;
        while (first != last) {
            if (first == last) fail("== and != of positions disagree");
            if (i >= snap.size()) fail("the combiner was given more positions than the signal has slots");
            int u = snap[i];
            int how = choose(ways);
            // 0 dereference, preincrement; 1 skip; 2 dereference, postincrement (*it++); 3 twice; 4 stop; 5 through a copy
            if (how == 4) { r.positions = (int)i; r.token += 1000; return r; }
            int times = how == 1 ? 0 : how == 3 ? 2 : 1;
            if (how == 2) {
                bool ok = invocable(u); W->expect = u; W->hit = false;
                auto old = first++;
                auto v = *old;
                if (ok != W->hit) fail("dereferencing slot %d %s", u, ok ? "did not invoke it" : "invoked it");
                Check<R>::value(v, u, ok); W->expect = -1;
            } else {
                for (int k = 0; k < times; ++k) {
                    bool ok = invocable(u); W->expect = u; W->hit = false;
                    if (how == 5) { It copy(first); auto v = *copy; if (ok != W->hit) fail("dereferencing slot %d %s", u, ok ? "did not invoke it" : "invoked it"); Check<R>::value(v, u, ok); }
                    else { auto v = *first; if (ok != W->hit) fail("dereferencing slot %d %s", u, ok ? "did not invoke it" : "invoked it"); Check<R>::value(v, u, ok); }
                    W->expect = -1;
                }
                It& again = ++first; if (&again != &first) fail("preincrement does not return the iterator");
            }
            ++i;
        }
        if (i != snap.size()) fail("the combiner was given fewer positions than the signal has slots");
        r.positions = (int)i;
        return r;
    }
    static int ways; static std::vector<int>* snapshot;
};
template<typename R> int Walker<R>::ways = 6;
template<typename R> std::vector<int>* Walker<R>::snapshot;

// observes the default combiner: wraps the positions to tell which slot may run
template<typename R, typename Sig> sig::connection connect(Sig& s, int u, int kind, F<R>& f, O<R>& o, std::shared_ptr<O<R>>& sp)
{
    switch (kind) {
    case 0: return s.connect(f);
    case 1: return s.connect(&O<R>::f, &o);
    default: return s.connect(&O<R>::f, sp);
    }
}

template<typename R, typename Sig, bool WALKED> struct Run {
    Sig s; F<R> f[MAXS]; O<R> o[MAXS]; std::shared_ptr<O<R>> sp[MAXS];
    static Run* self;
    static void again() { self->emit(); }
    // with the default combiner every position is dereferenced once, in order
    void emit()
    {
        int e = ++W->emission; ++W->depth;
        std::vector<int> snap = W->order;
        int pe = W->expect, pl = W->last; bool ph = W->hit;
        if (WALKED) {
            auto* old = Walker<R>::snapshot; Walker<R>::snapshot = &snap; int id = ++nextid;
            auto r = s();
            Walker<R>::snapshot = old;
            W->emission = e;
            if (std::is_same<decltype(r), Report>::value) check_report(r, id, snap.size());
        }
        W->depth--; W->emission = e; W->expect = pe; W->last = pl; W->hit = ph;
    }
    static void check_report(const Report& r, int id, size_t n) { if (r.token != id && r.token != id + 1000) { if (r.token % 1000 != id) fail("the emission returned another object than the combiner did"); } if (r.token < 1000 && (size_t)r.positions != n) fail("the emission returned another object than the combiner did"); }
    template<typename X> static void check_report(const X&, int, size_t) {}
};
template<typename R, typename Sig, bool WALKED> Run<R, Sig, WALKED>* Run<R, Sig, WALKED>::self;

void arrange(int maxn, int nst, int nkind) { W->n = choose(maxn + 1); for (int u = 0; u < W->n; ++u) { W->kind[u] = choose(nkind); W->st[u] = (St)choose(nst); if (W->st[u] == EXPIRED && W->kind[u] != 2) W->kind[u] = 2; } }

template<typename R, typename X> void build(X& x)
{
    for (int u = 0; u < W->n; ++u) {
        x.f[u].u = u; x.o[u].u = u; x.sp[u].reset(new O<R>{u});
        W->c[u] = connect<R>(x.s, u, W->kind[u], x.f[u], x.o[u], x.sp[u]);
        W->order.push_back(u);
        note("slot %d: kind %d state %d\n", u, W->kind[u], W->st[u]);
    }
    for (int u = 0; u < W->n; ++u) switch (W->st[u]) {
    case BLOCKED: W->c[u].block(); break;
    case BLOCKER: W->b[u] = W->c[u].blocker(); break;
    case EXPIRED: x.sp[u].reset(); break;
    case GONE: { W->c[u].disconnect(); size_t i = 0; while (W->order[i] != u) ++i; W->order[i] = W->order.back(); W->order.pop_back(); break; }
    default: break;
    }
}

template<typename R> void walk(bool th)
{
    World w; W = &w; w.cb = 0; nextid = 0;
    bool act = choose(2);
    if (act) { w.cb = th ? 2 : 1; arrange(th ? 3 : 3, 2, 1); Walker<R>::ways = th ? 4 : 2; }
    else { arrange(th ? 4 : 3, NST, 3); Walker<R>::ways = 6; }
    using X = Run<R, sig::signal<R(), Walker<R>>, true>;
    X x; X::self = &x; emit_again = X::again;
    build<R>(x);
    x.emit();
}

// ---- default combiner
template<typename R> struct Last {
    template<typename Opt> static void check(const Opt& r, int u, int e)
    {
        if (bool(r) != (u >= 0)) fail(u >= 0 ? "the emission returned nothing although slot %d was invoked" : "the emission returned a value although no slot was invoked (%d)", u);
        if (u >= 0 && !Val<R>::eq(*r, u, e)) fail("the emission did not return the value of the last slot invoked (%d)", u);
    }
};
template<> struct Last<void> { template<typename Opt> static void check(const Opt& r, int, int) { if (r) fail("an emission of a void signal returned a value"); } };

// positions are told to called() through a predicted order
struct DefState { std::vector<int> snap; size_t next; };
DefState* D;
template<typename R> struct FD { int u; R operator()(); R f(); };
void called_default(int u)
{
    step(); note("  slot %d invoked\n", u);
    if (!invocable(u)) fail("slot %d was invoked although it is blocked, disconnected or expired", u);
    size_t j = D->next; while (j < D->snap.size() && !invocable(D->snap[j])) ++j;
    if (j >= D->snap.size() || D->snap[j] != u) fail("slot %d was invoked out of order", u);
    D->next = j + 1; W->last = u;
    DefState* d = D; int e = W->emission, l = W->last;
    act();
    D = d; W->emission = e; W->last = l;
}
template<typename R> R FD<R>::operator()() { called_default(u); return Val<R>::make(u, W->emission); }
template<typename R> R FD<R>::f() { called_default(u); return Val<R>::make(u, W->emission); }

template<typename R> struct RunD {
    sig::signal<R()> s; FD<R> f[MAXS]; FD<R> o[MAXS]; std::shared_ptr<FD<R>> sp[MAXS];
    static RunD* self; static void again() { self->emit(); }
    void emit()
    {
        int e = ++W->emission; ++W->depth; W->last = -1;
        DefState d; d.snap = W->order; d.next = 0; D = &d;
        auto r = s();
        W->emission = e; W->depth--;
        Last<R>::check(r, W->last, e);
    }
};
template<typename R> RunD<R>* RunD<R>::self;
template<typename R> void deflt(bool th)
{
    World w; W = &w; bool act = choose(2);
    if (act) { w.cb = th ? 3 : 2; arrange(3, 2, 1); } else arrange(th ? 5 : 4, NST, 3);
    RunD<R> x; RunD<R>::self = &x; emit_again = RunD<R>::again;
    for (int u = 0; u < w.n; ++u) {
        x.f[u].u = x.o[u].u = u; x.sp[u].reset(new FD<R>{u});
        switch (w.kind[u]) { case 0: w.c[u] = x.s.connect(x.f[u]); break; case 1: w.c[u] = x.s.connect(&FD<R>::f, &x.o[u]); break; default: w.c[u] = x.s.connect(&FD<R>::f, x.sp[u]); }
        w.order.push_back(u); note("slot %d: kind %d state %d\n", u, w.kind[u], w.st[u]);
    }
    for (int u = 0; u < w.n; ++u) switch (w.st[u]) {
    case BLOCKED: w.c[u].block(); break; case BLOCKER: w.b[u] = w.c[u].blocker(); break; case EXPIRED: x.sp[u].reset(); break;
    case GONE: { w.c[u].disconnect(); size_t i = 0; while (w.order[i] != u) ++i; w.order[i] = w.order.back(); w.order.pop_back(); break; }
    default: break; }
    x.emit();
    if (choose(2)) x.emit();
}
// result types that are optionals themselves: an engaged result that holds nothing is still a result
template<typename R> struct FN { int k; R operator()(); };
template<> opt::optional<int> FN<opt::optional<int>>::operator()() { return k == 0 ? opt::optional<int>() : opt::optional<int>(k); }
template<> std::shared_ptr<int> FN<std::shared_ptr<int>>::operator()() { return k == 0 ? nullptr : std::make_shared<int>(k); }
template<> std::vector<int> FN<std::vector<int>>::operator()() { return std::vector<int>(k); }
bool holds(const opt::optional<int>& r, int k) { return k == 0 ? !r : r && *r == k; }
bool holds(const std::shared_ptr<int>& r, int k) { return k == 0 ? !r : r && *r == k; }
bool holds(const std::vector<int>& r, int k) { return (int)r.size() == k; }
template<typename R> void empties()
{
    sig::signal<R()> s; sig::connection c[4]; int n = choose(5), last = -1;
    for (int i = 0; i < n; ++i) { int k = choose(3); c[i] = s.connect(FN<R>{k}); if (choose(2)) c[i].block(); else last = k; note("slot returning %d%s\n", k, c[i].blocked() ? ", blocked" : ""); }
    step();
    opt::optional<R> r = s();
    if (r.has_value() != (last >= 0)) fail("the emission returned %s", r.has_value() ? "a value although no slot was invoked" : "nothing although a slot was invoked");
    if (last >= 0 && !holds(r.value(), last)) fail("the emission did not return the value of the last slot invoked");
}
void nested() { switch (choose(3)) { case 2: empties<opt::optional<int>>(); break; case 0: empties<std::shared_ptr<int>>(); break; case 1: empties<std::vector<int>>(); break; } }

void c03(bool th)
{
    insts = 0;
    switch (choose(12)) {
    case 0: walk<int>(th); break; case 1: walk<std::string>(th); break; case 2: walk<void>(th); break;
    case 3: deflt<int>(th); break; case 4: deflt<bool>(th); break; case 5: deflt<std::string>(th); break; case 6: deflt<int*>(th); break; case 7: deflt<void>(th); break;
    case 8: deflt<Heavy>(th); break;
    case 9: deflt<double>(th); break; case 10: deflt<Em>(th); break; case 11: nested(); break;
    }
    if (insts) fail("%d result objects were not destroyed (or destroyed twice)", insts);
    // an emission without any slot, and a user combiner that never looks at its positions, are part of the walks above
}
const SuiteS suites[] = {{"C03", c03}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, 1); }
