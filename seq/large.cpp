// Engine S: histories that are long, on signals that are large.  Three enumerations, each in lock step with a model:
//  big   all words of up to two (thorough: three) operations over the positions that matter, on signals of every size
//        of a list that brackets the powers of two up to 2^16
//  loop  every word of up to three (thorough: four) operations, repeated many times (all periodic histories)
//  deep  emissions nested up to a depth of 64, with every action performed at the innermost level
#include "signals.hpp"
#include "rt.h"
#include <algorithm>
#include <memory>
#include <vector>
#include <cstring>

namespace {
enum : unsigned { M_MEMBER = 1, M_ORDER = 2, M_RESULT = 4, M_COUNT = 8, M_RET = 16, M_CONN = 32, M_LIFE = 64, M_BLOCK = 128, M_ALL = 255 };
unsigned mask;
void bad(unsigned cat, const char* what, long a = -1, long b = -1) { if (mask & cat) fail("%s (%ld, %ld)", what, a, b); }

template<typename R> struct Ret;
template<> struct Ret<int> { static int make(int v) { return v; } static int get(const opt::optional<int>& o) { return o ? *o : -1; } static int want(int v) { return v; } };
template<> struct Ret<void> { static void make(int) {} static int get(const opt::optional<void>& o) { return o ? -2 : -1; } static int want(int) { return -1; } };

std::vector<int> seen;
std::vector<int> live;                     // callables per slot
void (*inside)(int) = nullptr;             // action inside a slot
template<typename R> struct Fn {
    int u, g;
    Fn(int a, int b) : u(a), g(b) { if (u >= 0) ++live[u]; }
    Fn(const Fn& o) : u(o.u), g(o.g) { if (u >= 0) ++live[u]; }
    ~Fn() { if (u >= 0) --live[u]; }
    R operator()(int) { seen.push_back(u); if (inside) inside(u); return Ret<R>::make(u); }
    bool operator==(const Fn& o) const { return g == o.g; }
};

template<typename R> struct Big {
    using Sig = sig::signal<R(int)>;
    std::unique_ptr<Sig> s, other;
    std::vector<int> list, grp; std::vector<char> conn, blk;
    std::vector<sig::connection> c;
    std::vector<std::unique_ptr<sig::scoped_connection>> sc;
    int scoped = -1;
    int groups;
    explicit Big(int n, int gr) : s(new Sig), groups(gr) { live.clear(); seen.clear(); live.reserve(n + 1000); c.reserve(n + 1000); for (int i = 0; i < n; ++i) connect(gr == 0 ? i : gr == 1 ? 0 : i % gr); }
    void connect(int g)
    {
        int u = (int)list_size(); live.push_back(0); grp.push_back(g); conn.push_back(1); blk.push_back(0);
        c.push_back(s->connect(Fn<R>(u, g))); list.push_back(u);
    }
    size_t list_size() const { return grp.size(); }
    void drop(size_t i) { conn[list[i]] = 0; list[i] = list.back(); list.pop_back(); }
    void disc(size_t i)
    {
        if (i >= list.size()) return;
        int u = list[i]; drop(i);
        if (!c[u].disconnect()) bad(M_RET, "disconnect() of a connected slot returned false", u);
        if (c[u].disconnect()) bad(M_RET, "a second disconnect() returned true", u);
        if (c[u].connected()) bad(M_CONN, "a disconnected slot reports connected", u);
        if (live[u]) bad(M_LIFE, "the callable of a disconnected slot is retained", u);
    }
    void discfn(int g)
    {
        size_t w = 0; std::vector<int> gone;
        for (size_t i = 0; i < list.size();) if (grp[list[i]] == g) { gone.push_back(list[i]); drop(i); ++w; } else ++i;
        size_t r = s->disconnect(Fn<R>(-1, g));
        if (r != w) bad(M_COUNT, "disconnect by callable returned another number than it had to remove", (long)r, (long)w);
        for (int u : gone) { if (live[u]) bad(M_LIFE, "the callable of a disconnected slot is retained", u); if (c[u].connected() || c[u].disconnect()) bad(M_CONN, "a removed slot reports connected", u); }
    }
    void block(size_t i, bool on) { if (i >= list.size()) return; int u = list[i]; blk[u] = on; if (on) c[u].block(); else c[u].unblock(); if (c[u].blocked() != on) bad(M_BLOCK, "blocked() is wrong", u); }
    void scope(size_t i)      // a scoped connection takes over a slot, the previous one goes
    {
        if (i >= list.size()) return;
        int u = list[i];
        if (scoped >= 0 && conn[scoped]) { if (scoped == u) return; for (size_t k = 0; k < list.size(); ++k) if (list[k] == scoped) { drop(k); break; } }
        std::unique_ptr<sig::scoped_connection> n(new sig::scoped_connection(c[u]));
        if (sc.empty()) sc.push_back(std::move(n)); else *sc[0] = std::move(*n);
        scoped = u;
    }
    void move()               // the signal moves, alternating by construction and by assignment
    {
        if (other) { *other = std::move(*s); std::swap(s, other); } else { other.reset(new Sig(std::move(*s))); std::swap(s, other); }
        if (Ret<R>::get((*other)(0)) != -1 || !seen.empty()) bad(M_MEMBER, "a moved-from signal still has slots");
        seen.clear();
    }
    void emit()
    {
        step(); seen.clear();
        int r = Ret<R>::get((*s)(0));
        std::vector<int> want; for (int u : list) if (!blk[u]) want.push_back(u);
        if (r != (want.empty() ? -1 : Ret<R>::want(want.back())) && seen == want) bad(M_RESULT, "the emission did not return the value of the last slot", r);
        if (seen != want) {
            std::vector<int> a(seen), b(want); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (a == b) bad(M_ORDER, "the slots were not invoked in the order of the list", (long)list.size());
            else bad(M_MEMBER, "an emission did not invoke exactly the connected, unblocked slots", (long)a.size(), (long)b.size());
        }
        seen.clear();
    }
    void states() { for (size_t u = 0; u < c.size(); ++u) { if (c[u].connected() != (bool)conn[u]) bad(M_CONN, conn[u] ? "a connected slot reports not connected" : "a disconnected slot reports connected", (long)u); if (live[u] != (conn[u] ? 1 : 0)) bad(M_LIFE, "the callable of a slot is gone or retained", (long)u, live[u]); } }
    void end() { s.reset(); other.reset(); for (size_t u = 0; u < c.size(); ++u) { conn[u] = 0; if (c[u].disconnect()) bad(M_RET, "disconnect() returned true after the signal was destroyed"); } states(); sc.clear(); }
};

const int SIZES[] = {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 65538};
enum { NSIZES = sizeof SIZES / sizeof *SIZES };
template<typename R> void big(bool th, bool moves)
{
    int n = SIZES[choose(std::is_void<R>::value ? NSIZES - 10 : NSIZES)];      // (once is enough for the largest)
    int gr = choose(3); gr = gr == 0 ? 0 : gr == 1 ? 1 : 3;    // all different, all equal, three groups
    if (gr == 0 && n > 5000) return;                           // (quadratic comparisons are not the point)
    note("%d slots, grouping %d\n", n, gr);
    Big<R> b(n, gr);
    if (n <= 5000) b.emit();
    int depth = n > 5000 ? 2 : th ? 3 : 2;
    const long P[] = {0, 1, n / 2, n - 2, n - 1, 255, 256, 65535};
    int np = 5 + (n > 257) + (n > 257) + (n > 65536);
    for (int d = 0; d < depth; ++d) {
        int k = choose(n > 5000 ? np + 3 : 2 * np + 6);
        if (k < np) { note("disconnect at %ld\n", P[k]); b.disc(P[k]); }
        else if (k == np) { note("disconnect group 0\n"); b.discfn(0); }
        else if (k == np + 1) { note("connect\n"); b.connect(1); }
        else if (k == np + 2) { if (moves) { note("move\n"); b.move(); } else { note("disconnect group 1\n"); b.discfn(1); } }
        else if (k == np + 3) { note("remove every other slot through its connection\n"); size_t t = b.list.size(); for (size_t i = 0; i < t / 2; ++i) b.disc(i); }
        else if (k == np + 4) { note("remove all but one, from the back\n"); while (b.list.size() > 1) b.disc(b.list.size() - 1); }
        else if (k == np + 5) { note("remove all but three, from the front\n"); while (b.list.size() > 3) b.disc(0); }
        else { long p = P[k - np - 6]; note("block at %ld\n", p); b.block(p, true); }
        if (d + 1 == depth || n <= 300) b.emit();
    }
    b.states();
    b.connect(2); b.emit();
    b.end();
}
template<typename R> void loop(bool th, bool moves)
{
    int pre = choose(3) * 2;
    int len = 1 + choose(th ? 4 : 3);
    Big<R> b(pre, 2);
    int w[4]; for (int i = 0; i < len; ++i) w[i] = choose(moves ? 11 : 10);
    int times = 300;
    note("%d slots, %d repetitions of", pre, times); for (int i = 0; i < len; ++i) note(" %d", w[i]); note("\n");
    for (int t = 0; t < times; ++t) {
        for (int i = 0; i < len; ++i) switch (w[i]) {
        case 0: b.connect(0); break;
        case 1: b.connect(1); break;
        case 2: b.disc(0); break;
        case 3: if (!b.list.empty()) b.disc(b.list.size() - 1); break;
        case 4: b.disc(b.list.size() / 2); break;
        case 5: b.discfn(0); break;
        case 6: if (!b.list.empty()) b.block(t % b.list.size(), true); break;
        case 7: if (!b.list.empty()) b.block(t % b.list.size(), false); break;
        case 8: b.emit(); break;
        case 9: b.scope(0); break;
        case 10: b.move(); break;
        }
        if (t < 40 || t % 16 == 0 || t + 1 == times) b.emit();
    }
    b.states(); b.emit(); b.end();
}
// ---- one word repeated exactly k times between two emissions (counters that wrap, state shared between emissions)
template<typename R> void bulk(bool th, bool moves)
{
    static const int K[] = {127, 128, 129, 255, 256, 257, 512, 65536, 32768, 65535, 65537};
    int pre = choose(3); pre = pre == 0 ? 0 : pre == 1 ? 3 : 40;
    int k = K[choose(std::is_void<R>::value && !th ? 7 : (int)(sizeof K / sizeof *K))];
    int len = 1 + choose(th && k < 1000 ? 3 : k < 1000 || k == 65536 ? 2 : 1);
    int w[4]; for (int i = 0; i < len; ++i) { w[i] = choose(moves ? 10 : 9); if (i && w[i] == w[i - 1]) return; }
    int rest = choose(3);
    Big<R> b(pre, 2); b.emit();
    note("%d slots, an emission, %d repetitions of", pre, k); for (int i = 0; i < len; ++i) note(" %d", w[i]); note(", then %d\n", rest);
    for (int t = 0; t < k; ++t) for (int i = 0; i < len; ++i) {
        bool many = b.list.size() > 1000 && k > 1000;
        switch (w[i]) {
        case 0: b.connect(0); break;
        case 1: b.connect(1); break;
        case 2: b.disc(0); break;
        case 3: if (!b.list.empty()) b.disc(b.list.size() - 1); break;
        case 4: if (many) return; b.discfn(0); break;
        case 5: b.block(0, true); break;
        case 6: b.block(0, false); break;
        case 7: if (many) return; b.emit(); break;
        case 8: if (many) return; b.scope(b.list.size() / 2); break;
        case 9: if (many) return; b.move(); break;
        }
    }
    if (rest == 1) b.connect(0); else if (rest == 2) b.disc(0);
    b.emit(); b.connect(1); b.emit(); b.states(); b.end();
}
// ---- nested emissions
template<typename R> struct Deep {
    using Sig = sig::signal<R(int)>;
    static Deep* d;
    std::unique_ptr<Sig> s; sig::connection c[4]; sig::scoped_connection sc; std::unique_ptr<sig::connection_blocker> bl;
    int depth, now = 0, action, calls[5]; bool acted = false, dead = false;
    int returned = 0, lastret = -3;
    static void go(int u)
    {
        Deep& x = *d;
        x.calls[u]++;
        if (u != 0) return;
        if (x.now < x.depth) { ++x.now; int r = Ret<R>::get((*x.s)(0)); x.returned++; if (r != x.last()) bad(M_RESULT, "a nested emission returned another value than its last slot's", r, x.last()); return; }
        if (x.acted) return;
        x.acted = true;
        switch (x.action) {
        case 0: break;
        case 1: x.c[0].disconnect(); break;
        case 2: x.c[1].disconnect(); break;
        case 3: x.c[2].disconnect(); break;
        case 4: x.s->disconnect(Fn<R>(-1, 1)); break;
        case 5: x.c[1].block(); break;
        case 6: x.c[3] = x.s->connect(Fn<R>(3, 3)); break;
        case 7: x.dead = true; x.s.reset(); break;
        case 8: { sig::scoped_connection t(x.c[1]); } break;
        case 9: x.bl.reset(new sig::connection_blocker(x.c[1].blocker())); break;
        case 10: x.s->disconnect(Fn<R>(-1, 0)); break;
        }
    }
    int last() const
    {
        if (std::is_void<R>::value) return -1;
        switch (action) { case 3: return 1; case 7: return 0; case 2: case 5: case 8: case 9: case 4: return 2; default: return 2; }
    }
    void run()
    {
        static const int D[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65};
        depth = D[choose(sizeof D / sizeof *D)]; action = choose(11);
        note("nesting depth %d, action %d at the innermost level\n", depth, action);
        d = this; inside = nullptr; memset(calls, 0, sizeof calls); live.assign(8, 0); seen.clear();
        s.reset(new Sig);
        for (int i = 0; i < 3; ++i) c[i] = s->connect(Fn<R>(i, i));
        inside = &go; step();
        int r = Ret<R>::get((*s)(0));
        int n = depth + 1;
        if (r != last()) bad(M_RESULT, "the outermost emission returned another value than its last slot's", r, last());
        int w1 = n, w2 = n;
        switch (action) { case 2: case 5: case 8: case 9: case 4: w1 = 0; break; case 3: w2 = 0; break; case 7: w1 = w2 = 0; break; }
        if (calls[0] != n) bad(M_MEMBER, "the first slot was invoked another number of times than there were emissions", calls[0], n);
        if (calls[1] != w1) bad(M_MEMBER, "the second slot was not invoked by exactly the emissions that had to", calls[1], w1);
        if (calls[2] != w2) bad(M_MEMBER, "the third slot was not invoked by exactly the emissions that had to", calls[2], w2);
        if (calls[3]) bad(M_MEMBER, "a slot connected during the emissions was invoked by one of them", calls[3]);
        // afterwards
        int alive[4] = {1, 1, 1, action == 6};
        switch (action) { case 1: case 10: alive[0] = 0; break; case 2: case 4: case 8: alive[1] = 0; break; case 3: alive[2] = 0; break; case 7: alive[0] = alive[1] = alive[2] = 0; break; }
        for (int i = 0; i < 4; ++i) { if (c[i].connected() != (bool)alive[i]) bad(M_CONN, "a connection reports the wrong state after nested emissions", i); if (live[i] != alive[i]) bad(M_LIFE, "a callable is gone or retained after nested emissions", i, live[i]); }
        if (s) {
            inside = nullptr; seen.clear(); (*s)(0);
            int blocked = action == 5 || action == 9;
            if ((int)seen.size() != alive[0] + alive[1] + alive[2] + alive[3] - blocked) bad(M_MEMBER, "a later emission does not invoke exactly the connected slots", (long)seen.size());
        }
        inside = nullptr; bl.reset(); s.reset();
        for (int i = 0; i < 4; ++i) if (live[i]) bad(M_LIFE, "a callable was never destroyed", i);
    }
};
template<typename R> Deep<R>* Deep<R>::d;
// ---- many blockers on one slot
template<typename R> void blockers()
{
    static const int N[] = {1, 2, 3, 7, 8, 9, 127, 128, 129, 255, 256, 257, 300, 65535, 65536, 65537};
    int n = N[choose(sizeof N / sizeof *N)]; int own = choose(2), order = choose(2);
    note("%d blockers%s, released from the %s\n", n, own ? " and a block" : "", order ? "back" : "front");
    sig::signal<R(int)> s; live.assign(8, 0); seen.clear(); inside = nullptr;
    auto c = s.connect(Fn<R>(0, 0)); auto c2 = s.connect(Fn<R>(1, 1));
    std::vector<sig::connection_blocker> b; b.reserve(n);
    auto look = [&](bool blocked) { step(); seen.clear(); s(0); if (c.blocked() != blocked) bad(M_BLOCK, "blocked() is wrong", (long)b.size()); if (seen.size() != (blocked ? 1u : 2u) || seen.back() != 1) bad(M_MEMBER, blocked ? "a blocked slot was invoked" : "a slot without block was not invoked", (long)b.size()); };
    for (int i = 0; i < n; ++i) { b.push_back(c.blocker()); if (i < 300 || i > n - 3 || (i & (i + 1)) == 0) look(true); }
    if (own) { c.block(); look(true); }
    int i = 0;
    while (i < n) { if (order) b.pop_back(); else b[i] = sig::connection_blocker(); ++i; if (i < 300 || i > n - 3) look(i < n || own); }
    if (own) { c.unblock(); look(false); }
    if (!c.connected()) bad(M_CONN, "blocking disconnected the slot");
}
template<typename R> void pick(bool th, int what) { if (what <= 1) { switch (choose(3)) { case 0: big<R>(th, what == 1); break; case 1: loop<R>(th, what == 1); break; default: bulk<R>(th, what == 1); } } else if (what == 2) { auto* d = new Deep<R>(); d->run(); delete d; } else blockers<R>(); }
void run(bool th, unsigned m, int what) { mask = m; inside = nullptr; if (choose(2)) pick<void>(th, what); else pick<int>(th, what); }
void c01(bool th) { run(th, M_MEMBER, 0); }
void c02(bool th) { run(th, M_ORDER, 0); }
void c03(bool th) { run(th, M_RESULT, choose(2) ? 0 : 2); }
void c05(bool th) { run(th, M_ALL, 2); }
void c08(bool th) { run(th, M_RET | M_COUNT | M_CONN, 0); }
void c11(bool th) { run(th, M_LIFE, choose(2) ? 0 : 2); }
void c13(bool th) { run(th, M_BLOCK | M_MEMBER | M_CONN, choose(2) ? 0 : 3); }
void c14(bool th) { run(th, M_COUNT | M_MEMBER | M_CONN, 0); }
void c15(bool th) { run(th, M_ALL, 1); }
const SuiteS suites[] = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C05", c05}, {"C08", c08}, {"C11", c11}, {"C13", c13}, {"C14", c14}, {"C15", c15}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, sizeof suites / sizeof *suites); }
