// Engine S, C19: all histories of operations on three copy-on-write pointers, every accessor, with copies that throw.
#include "signals.hpp"
#include "rt.h"
#include <initializer_list>
#include <utility>
#include <vector>

namespace {
int insts, copies, budget;
struct Boom {};
struct Val {
    int v; const Val* self;
    Val(int x) : v(x), self(this) { ++insts; }
    Val(int x, int y) : v(x + y), self(this) { ++insts; }
    Val(std::initializer_list<int> l) : v(0), self(this) { for (int i : l) v += i; ++insts; }
    Val(const Val& o) : v(o.get()), self(this) { if (budget > 0 && choose(2)) { --budget; note("    copy throws\n"); throw Boom(); } ++insts; ++copies; }
    Val& operator=(const Val& o) { fail("the value is assigned"); return *this; }
    ~Val() { get(); self = nullptr; --insts; }
    int get() const { if (self != this) fail("a destroyed value is used"); return v; }
    void set(int x) { get(); v = x; }
    bool operator==(const Val&) const = delete;
};
using P = sig::detail::cow_ptr<Val>;
struct Group { int v; };
enum { MAXV = 3 };
struct W {
    int n; P p[MAXV]; int g[MAXV]; std::vector<Group> groups; int fresh = 10;
    W() { for (int& x : g) x = -1; }
    int owners(int k) const { int c = 0; for (int i = 0; i < n; ++i) c += g[i] == k; return c; }
    int group(int v) { groups.push_back(Group{v}); return (int)groups.size() - 1; }
    void check()
    {
        int live = 0;
        for (size_t k = 0; k < groups.size(); ++k) live += owners((int)k) > 0;
        int before = copies;
        for (int i = 0; i < n; ++i) {
            const P& c = p[i];
            if (bool(c) != (g[i] >= 0)) fail("pointer %d is %s", i, c ? "not null" : "null");
            if (g[i] < 0) { if (c.data() || c.operator->() || static_cast<const Val*>(c)) fail("a null pointer %d refers to a value", i); continue; }
            const Val* q = c.data();
            if (&*c != q || c.operator->() != q || &c.read() != q || static_cast<const Val*>(c) != q) fail("the reading accessors of pointer %d disagree", i);
            if (q->get() != groups[g[i]].v) fail("pointer %d reads %d, expected %d", i, q->get(), groups[g[i]].v);
            for (int j = 0; j < n; ++j) {
                bool same = g[i] == g[j]; const P& d = p[j];
                if ((c == d) != same || (c != d) == same) fail("comparing pointers %d and %d is wrong", i, j);
                if (same && d.data() != q) fail("pointers %d and %d should share their value", i, j);
                if (!same && d.data() == q) fail("pointers %d and %d should not share their value", i, j);
            }
        }
        if (copies != before) fail("reading copied the value");
        if (insts != live) fail("%d values exist, %d are owned", insts, live);
    }
};
void run(int n, int depth, int faults)
{
    insts = copies = 0; budget = faults;
    {
        W w; w.n = n;
        int len = 1 + choose(depth);
        for (int d = 0; d < len; ++d) {
            int i = choose(n), j = i; int op = choose(19);
            if (op < 5) { j = (i + 1 + choose(n - 1)) % n; }
            int want = copies, v = w.fresh += 5; step();
            P& a = w.p[i]; P& b = w.p[j];
            note("pointer %d: op %d, other %d, value %d\n", i, op, j, v);
            switch (op) {
            case 0: a = b; w.g[i] = w.g[j]; break;
            case 1: a = std::move(b); w.g[i] = w.g[j]; w.g[j] = -1; break;
            case 2: { P t(b); a = std::move(t); w.g[i] = w.g[j]; break; }
            case 3: { P t(std::move(b)); a = t; w.g[i] = w.g[j]; w.g[j] = -1; break; }
            case 4: std::swap(a, b); std::swap(w.g[i], w.g[j]); break;
            case 5: { P& r = a; a = r; break; }
            case 6: a = new Val(v); w.g[i] = w.group(v); break;
            case 7: a = P(new Val(v)); w.g[i] = w.group(v); break;
            case 8: a = sig::detail::make_cow<Val>(v, 1); w.g[i] = w.group(v + 1); break;
            case 9: a = sig::detail::make_cow<Val>({v, 1, 1}); w.g[i] = w.group(v + 2); break;
            case 10: a = P(); w.g[i] = -1; break;
            case 11: a = static_cast<Val*>(nullptr); w.g[i] = -1; break;
            default: {
                if (w.g[i] < 0) { if (op == 12 && a.data()) fail("null"); break; }
                bool shared = w.owners(w.g[i]) > 1; bool thrown = false;
                try {
                    switch (op) {
                    case 12: a.data()->set(v); break;
                    case 13: (*a).set(v); break;
                    case 14: a->set(v); break;
                    case 15: a.write().set(v); break;
                    case 16: static_cast<Val*>(a)->set(v); break;
                    case 17: { Val& x = a.write(); if (copies == want && shared) fail("access for writing did not copy a shared value"); x.set(v); break; }
                    case 18: { Val* x = a.data(); (*a).set(v - 1); if (x != &a.write()) fail("a pointer that owns its value alone copied it"); x->set(v); break; }
                    }
                } catch (Boom&) { thrown = true; }
                if (thrown) { if (!shared) fail("writing through the only owner copied the value"); break; }      // nothing may have changed
                if (shared) { ++want; w.g[i] = w.group(v); } else w.groups[w.g[i]].v = v;
                break; }
            }
            if (copies != want) fail("the operation made %d copies of the value, expected %d", copies, want);
            w.check();
        }
    }
    if (insts) fail("%d values were not destroyed (or destroyed twice)", insts);
}
void c19(bool th)
{
    if (choose(2)) run(3, 4, th); else run(2, th ? 5 : 4, 1);
}
const SuiteS suites[] = {{"C19", c19}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, 1); }
