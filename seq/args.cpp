// Engine S, C04: the arguments every slot of an emission sees.  All arrangements of up to three slots over the ways a
// slot can take the parameter (value, const reference, reference, rvalue reference), what it does with it (read, move
// from it, overwrite it, emit again), how it is stored (function object, member of an object by pointer / shared
// pointer / value, std::function), all forms of the emission (lvalue, const lvalue, rvalue, conversion), for several
// signal signatures, argument types, result types and a combiner that invokes every slot once or twice; emissions of
// two to six arguments with every form in every position.
#include "signals.hpp"
#include "rt.h"
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace {
int insts;
struct V {
    int id; V* self;
    V(int i) : id(i), self(this) { ++insts; }
    V(const V& o) : id(o.id), self(this) { o.ok(); ++insts; }
    V(V&& o) : id(o.id), self(this) { o.ok(); o.id = -1; ++insts; }
    V& operator=(const V& o) { ok(); o.ok(); id = o.id; return *this; }
    V& operator=(V&& o) { ok(); o.ok(); int i = o.id; o.id = -1; id = i; return *this; }
    ~V() { ok(); self = nullptr; --insts; }
    void ok() const { if (self != this) fail("a destroyed argument object is used"); }
};
template<typename T> struct Ty;
template<> struct Ty<V> { static V make(int i) { return V(i); } static int id(const V& v) { v.ok(); return v.id; } static int moved(int) { return -1; } static void set(V& v, int i) { v.ok(); v.id = i; } };
template<> struct Ty<std::string> {
    static std::string make(int i) { return "a string too long for the small buffer " + std::to_string(i); }
    static int id(const std::string& s) { return s.empty() ? -1 : s.size() < 39 ? -2 : atoi(s.c_str() + 39); }
    static int moved(int) { return -1; } static void set(std::string& s, int i) { s = make(i); }
};
template<> struct Ty<int> { static int make(int i) { return i; } static int id(const int& v) { return v; } static int moved(int i) { return i; } static void set(int& v, int i) { v = i; } };
template<> struct Ty<std::shared_ptr<int>> {
    static std::shared_ptr<int> make(int i) { return std::make_shared<int>(i); } static int id(const std::shared_ptr<int>& p) { return p ? *p : -1; }
    static int moved(int) { return -1; } static void set(std::shared_ptr<int>& p, int i) { p = make(i); }
};

enum Beh { READ, MOVE, SET, EMIT };
struct Ctx {
    int cur;             // value every slot must see (by value) / current value of the referred object
    const void* addr;    // the emitter's object, if the signature is a reference
    bool ref;            // the signature passes a reference
    int calls;
} *X;
int depth, budget, times;
bool calm;               // between emissions
std::function<void()> nested;

template<typename T> void seen(const T& p, bool same)
{
    step();
    if (calm) fail("a slot runs outside of an emission");
    int i = Ty<T>::id(p);
    note("    sees %d\n", i);
    if (i != X->cur) fail("a slot received argument %d, expected %d", i, X->cur);
    if (same && X->addr && &p != X->addr) fail("a slot received another object than the one the emitter passed by reference");
    ++X->calls;
}
template<typename T> void emit_now() { if (budget <= 0 || depth >= 2) return; --budget; Ctx* x = X; nested(); X = x; }

// T by value
template<typename T, typename Arg, typename P> struct Take;
template<typename T, typename Arg> struct Take<T, Arg, T> {
    static void go(T p, Beh b)
    {
        seen(p, false);
        if (std::is_rvalue_reference<Arg>::value) X->cur = Ty<T>::moved(X->cur);       // constructed from the emitter's rvalue
        int mine = Ty<T>::id(p);
        if (b == EMIT) { emit_now<T>(); if (Ty<T>::id(p) != mine) fail("the parameter of a running slot changed"); }
        else if (b == MOVE) { T q(std::move(p)); if (Ty<T>::id(q) != mine) fail("moving out of the parameter gave another value"); }
        else if (b == SET) Ty<T>::set(p, 70);
    }
};
template<typename T, typename Arg> struct Take<T, Arg, const T&> {
    static void go(const T& p, Beh b)
    {
        seen(p, std::is_reference<Arg>::value);
        if (b == EMIT) { emit_now<T>(); if (Ty<T>::id(p) != X->cur) fail("the parameter of a running slot changed"); }
    }
};
template<typename T, typename Arg> struct Take<T, Arg, T&> {
    static void go(T& p, Beh b)
    {
        seen(p, true);
        if (b == EMIT) { emit_now<T>(); if (Ty<T>::id(p) != X->cur) fail("the parameter of a running slot changed"); }
        else if (b == MOVE) { T q(std::move(p)); X->cur = Ty<T>::moved(X->cur); }
        else if (b == SET) { Ty<T>::set(p, 80); X->cur = 80; }
    }
};
template<typename T, typename Arg> struct Take<T, Arg, T&&> {
    static void go(T&& p, Beh b)
    {
        bool ref = std::is_reference<Arg>::value;
        seen(p, ref);
        int mine = Ty<T>::id(p);
        if (b == EMIT) { emit_now<T>(); if (Ty<T>::id(p) != (ref ? X->cur : mine)) fail("the parameter of a running slot changed"); }
        else if (b == MOVE) { T q(std::move(p)); if (ref) X->cur = Ty<T>::moved(X->cur); }
        else if (b == SET) { Ty<T>::set(p, 90); if (ref) X->cur = 90; }
    }
};
template<typename R> struct Ret { static R get(int u) { return u; } };
template<> struct Ret<void> { static void get(int) {} };

template<typename R, typename T, typename Arg, typename P> struct Fn {
    int u; Beh b;
    R operator()(P p) { note("  slot %d\n", u); Take<T, Arg, P>::go(static_cast<P&&>(p), b); return Ret<R>::get(u); }
    R f(P p) { return (*this)(static_cast<P&&>(p)); }
    R g(P p) const { Fn c(*this); return c(static_cast<P&&>(p)); }
};

// invokes every position once or twice
struct Times { using result_type = int; template<typename It> int operator()(It a, It b) const { int n = 0; for (; a != b; ++a) for (int k = 0; k < times; ++k) { *a; ++n; } return n; } };
struct Own { using result_type = int; template<typename It> int operator()(It a, It b) const { int n = 0; while (a != b) { *a++; ++n; } return n; } };

std::vector<std::shared_ptr<void>> keep;
template<typename R, typename T, typename Arg, typename P, typename Sig> void attach(Sig& s, int u, int kind, Beh b)
{
    using F = Fn<R, T, Arg, P>;
    F f{u, b};
    switch (kind) {
    case 0: s.connect(f); break;
    case 1: { auto p = std::make_shared<F>(f); keep.push_back(p); s.connect(&F::f, p.get()); break; }
    case 2: { auto p = std::make_shared<F>(f); keep.push_back(p); s.connect(&F::f, p); break; }
    case 3: s.connect(&F::f, f); break;
    case 4: s.connect(std::function<R(P)>(f)); break;
    case 5: { auto p = std::make_shared<F>(f); keep.push_back(p); s.connect(&F::g, std::cref(*p)); break; }
    }
}
// which parameter forms a signature allows
template<typename Arg> struct Forms;   // n, attach(form)
template<typename R, typename T, typename Arg, typename Sig> void form(Sig& s, int u, int f, int k, Beh b, std::integral_constant<int, 0>)    // T
{ switch (f) { case 0: attach<R, T, Arg, T>(s, u, k, b); break; case 1: attach<R, T, Arg, const T&>(s, u, k, b); break; case 2: attach<R, T, Arg, T&&>(s, u, k, b); break; } }
template<typename R, typename T, typename Arg, typename Sig> void form(Sig& s, int u, int f, int k, Beh b, std::integral_constant<int, 1>)    // const T&
{ switch (f) { case 0: attach<R, T, Arg, T>(s, u, k, b); break; case 1: attach<R, T, Arg, const T&>(s, u, k, b); break; } }
template<typename R, typename T, typename Arg, typename Sig> void form(Sig& s, int u, int f, int k, Beh b, std::integral_constant<int, 2>)    // T&
{ switch (f) { case 0: attach<R, T, Arg, T>(s, u, k, b); break; case 1: attach<R, T, Arg, const T&>(s, u, k, b); break; case 2: attach<R, T, Arg, T&>(s, u, k, b); break; } }
template<typename R, typename T, typename Arg, typename Sig> void form(Sig& s, int u, int f, int k, Beh b, std::integral_constant<int, 3>)    // T&&
{ switch (f) { case 0: attach<R, T, Arg, T>(s, u, k, b); break; case 1: attach<R, T, Arg, const T&>(s, u, k, b); break; case 2: attach<R, T, Arg, T&&>(s, u, k, b); break; } }
template<typename T, typename Arg> struct Cat { static const int value = std::is_same<Arg, T>::value ? 0 : std::is_same<Arg, const T&>::value ? 1 : std::is_same<Arg, T&>::value ? 2 : 3; };

struct Begin { Ctx c; Ctx* old; Begin(int cur, const void* a, bool r) : c{cur, a, r, 0}, old(X) { X = &c; ++depth; calm = false; } ~Begin() { X = old; if (!--depth) calm = true; } };
template<typename Sig, typename T> void emit(Sig& s, int v, int how, std::integral_constant<int, 0>)
{
    T x = Ty<T>::make(v); const T& cx = x;
    Begin e(v, nullptr, false);
    switch (how) {
    case 0: s(x); break; case 1: s(cx); break; case 2: s(std::move(x)); return; case 3: s(Ty<T>::make(v)); break;
    }
    if (Ty<T>::id(x) != v) fail("an argument passed by value was changed by the slots: now %d", Ty<T>::id(x));
}
template<typename Sig, typename T> void emit(Sig& s, int v, int how, std::integral_constant<int, 1>)
{
    T x = Ty<T>::make(v); const T& cx = x;
    Begin e(v, how == 2 ? nullptr : &x, true);
    switch (how) { case 0: s(x); break; case 1: s(cx); break; case 2: s(Ty<T>::make(v)); break; case 3: s(std::move(x)); break; }
    if (Ty<T>::id(x) != v) fail("an argument passed by const reference was changed: now %d", Ty<T>::id(x));
}
template<typename Sig, typename T> void emit(Sig& s, int v, int, std::integral_constant<int, 2>)
{
    T x = Ty<T>::make(v);
    Begin e(v, &x, true);
    s(x);
    if (Ty<T>::id(x) != e.c.cur) fail("the emitter's object passed by reference holds %d, the slots left %d", Ty<T>::id(x), e.c.cur);
}
template<typename Sig, typename T> void emit(Sig& s, int v, int, std::integral_constant<int, 3>)
{
    T x = Ty<T>::make(v);
    Begin e(v, &x, true);
    s(std::move(x));
    if (Ty<T>::id(x) != e.c.cur) fail("the emitter's object passed by rvalue reference holds %d, the slots left %d", Ty<T>::id(x), e.c.cur);
}

template<typename R, typename T, typename Arg> void one(bool th, bool full)
{
    constexpr int cat = Cat<T, Arg>::value; using C = std::integral_constant<int, cat>;
    const int nform[] = {3, 2, 3, 3}, nhow[] = {4, 4, 1, 1};
    using S = sig::signal<R(Arg), Times>; S s;
    times = 1 + choose(2);
    int n = 1 + choose(full ? 3 : 2);
    note("%s signature, %d slots, invoked %d times\n", cat == 0 ? "T" : cat == 1 ? "const T&" : cat == 2 ? "T&" : "T&&", n, times);
    for (int u = 0; u < n; ++u) {
        int f = choose(nform[cat]);
        // a rvalue signature: a by-value parameter or a move empties the emitter's object, all of that is modelled
        int b = f == 1 ? (choose(2) ? EMIT : READ) : choose(4);
        int k = (n < 3 || th) ? choose(6) : choose(2) * 2;
        note("  slot %d: parameter form %d behaviour %d kind %d\n", u, f, b, k);
        form<R, T, Arg>(s, u, f, k, (Beh)b, C());
    }
    int how = choose(nhow[cat]);
    budget = 1;
    nested = [&] { note("   {nested emission\n"); emit<S, T>(s, 7, 0, C()); note("   }\n"); };
    emit<S, T>(s, 3, how, C());
    if (choose(2)) { budget = 1; emit<S, T>(s, 4, how, C()); }
}

// several arguments at once, also aliasing each other; default combiner
int want1, want3;
template<typename R, typename A, typename B, typename C> struct Multi {
    int u, b;
    R operator()(A a, B q, C c)
    {
        step();
        note("  slot %d sees %d %d %d\n", u, a.id, q.id, (int)c);
        if (a.id != want1) fail("slot %d received first argument %d, expected %d", u, a.id, want1);
        if (q.id != X->cur) fail("slot %d received second argument %d, expected %d", u, q.id, X->cur);
        if ((int)c != want3) fail("slot %d received third argument %d, expected %d", u, (int)c, want3);
        if (std::is_reference<B>::value && (const void*)&q != X->addr) fail("slot %d received another object by reference", u);
        change(a, true); change(q, !std::is_same<B, V&>::value);
        if (std::is_same<B, V&>::value && (b & 2)) X->cur = 60 + u;
        ++X->calls;
        return Ret<R>::get(u);
    }
    R f(A a, B q, C c) { return (*this)(static_cast<A&&>(a), static_cast<B&&>(q), c); }
    void change(const V&, bool) {}
    void change(V& v, bool mv) { if (b & 2) v.id = 60 + u; else if ((b & 1) && mv) V w(std::move(v)); }
};
template<typename R, typename M, typename S> void attach3(S& s, int u, int k, int b)
{
    M m{u, b};
    if (k == 0) s.connect(m);
    else { auto p = std::make_shared<M>(m); keep.push_back(p); if (k == 1) s.connect(&M::f, p.get()); else s.connect(&M::f, p); }
}
template<typename R> void multi(bool th)
{
    using S = sig::signal<R(V, V&, int)>; S s;
    int n = 1 + choose(th ? 3 : 2);
    for (int u = 0; u < n; ++u) {
        int f = choose(4), k = choose(3), b = choose(4);
        note("slot %d: form %d kind %d behaviour %d\n", u, f, k, b);
        switch (f) {
        case 0: attach3<R, Multi<R, V, V&, int>>(s, u, k, b); break;
        case 1: attach3<R, Multi<R, const V&, const V&, long>>(s, u, k, b); break;
        case 2: attach3<R, Multi<R, V&&, V, short>>(s, u, k, b); break;
        case 3: attach3<R, Multi<R, V, const V&, const int&>>(s, u, k, b); break;
        }
    }
    bool alias = choose(2);
    V x(5), y(6); const int z = 9;
    V& first = alias ? y : x;
    want1 = first.id; want3 = 9;
    Begin e(6, &y, true);
    if (choose(2)) s(first, y, z); else s(V(first), y, 9);
    if (e.c.calls != n) fail("%d of %d slots were invoked", e.c.calls, n);
    if (y.id != e.c.cur) fail("the emitter's object passed by reference holds %d, the slots left %d", y.id, e.c.cur);
    if (!alias && x.id != 5) fail("an argument passed by value was changed");
}
// pointers, and arguments that cannot be copied (for one slot that takes the value)
template<typename R> struct PtrFn { int u; V* want; R operator()(V* p) { step(); if (p != want) fail("slot %d received another pointer", u); p->id = u; return Ret<R>::get(u); } };
template<typename R> struct Uni {
    int b;
    R operator()(std::unique_ptr<V> p) { go(*p, p.get()); return Ret<R>::get(1); }
    static void go(const V& v, const V* p) { step(); if (!p || v.id != 3) fail("a move-only argument did not arrive"); ++X->calls; }
};
template<typename R> struct UniR { R operator()(std::unique_ptr<V>&& p) { Uni<R>::go(*p, p.get()); return Ret<R>::get(1); } };
template<typename R> struct UniC { R operator()(const std::unique_ptr<V>& p) { Uni<R>::go(*p, p.get()); return Ret<R>::get(1); } };
template<typename R> void special()
{
    if (choose(2)) {
        using S = sig::signal<R(V*)>; S s; V v(1);
        int n = 1 + choose(3);
        for (int u = 0; u < n; ++u) s.connect(PtrFn<R>{u, &v});
        s(&v);
        if (v.id != n - 1) fail("changes through a pointer argument are lost");
        return;
    }
    using S = sig::signal<R(std::unique_ptr<V>), Own>; S s;
    int n = choose(3);
    for (int u = 0; u < n; ++u) if (choose(2)) s.connect(UniR<R>()); else s.connect(UniC<R>());
    if (choose(2)) s.connect(Uni<R>()); else s.connect(UniR<R>());
    std::unique_ptr<V> p(new V(3));
    Begin e(3, nullptr, false);
    if (choose(2)) s(std::move(p)); else s(std::unique_ptr<V>(new V(3)));
    if (e.c.calls != n + 1) fail("%d of %d slots were invoked", e.c.calls, n + 1);
}
// four to six arguments: every position takes every form, no position is mixed up with another
template<int C> struct Form_; template<> struct Form_<0> { using type = V; }; template<> struct Form_<1> { using type = const V&; }; template<> struct Form_<2> { using type = V&; }; template<> struct Form_<3> { using type = V&&; };
V* wide_obj[8]; int wide_cur[8];
void wide_see(int u, int i, int form, const V& v)
{
    v.ok();
    if (v.id != wide_cur[i]) fail("slot %d received argument %d with value %d, expected %d", u, i, v.id, wide_cur[i]);
    if (form && &v != wide_obj[i]) fail("slot %d received another object than the one passed by reference as argument %d", u, i);
}
void wide_do(int u, int i, int b, const V&, bool) {}
void wide_do(int u, int i, int b, V& v, bool ref)
{
    if (b == 1) { v.id = 100 * u + i + 50; if (ref) wide_cur[i] = v.id; }
    else if (b == 2) { V w(std::move(v)); if (ref) wide_cur[i] = -1; }
}
template<typename R, int Rot, typename I> struct Wide;
template<typename R, int Rot, int... I> struct Wide<R, Rot, std::integer_sequence<int, I...>> {
    int u, b;
    R operator()(typename Form_<(I + Rot) % 4>::type... p)
    {
        step(); ++X->calls;
        int x[] = {(wide_see(u, I, (I + Rot) % 4, p), 0)...};
        int y[] = {(wide_do(u, I, b, p, (I + Rot) % 4 != 0), 0)...};
        return Ret<R>::get(u);
    }
    R f(typename Form_<(I + Rot) % 4>::type... p) { return (*this)(static_cast<typename Form_<(I + Rot) % 4>::type>(p)...); }
    static void run(bool th)
    {
        using S = sig::signal<R(typename Form_<(I + Rot) % 4>::type...)>; S s;
        int n = 1 + choose(th ? 3 : 2);
        for (int u = 0; u < n; ++u) {
            int k = choose(4), b = choose(3);
            note("slot %d: kind %d behaviour %d\n", u, k, b);
            Wide w{u, b};
            auto p = std::make_shared<Wide>(w); keep.push_back(p);
            switch (k) { case 0: s.connect(w); break; case 1: s.connect(&Wide::f, p.get()); break; case 2: s.connect(&Wide::f, p); break; case 3: s.connect(&Wide::f, w); break; }
        }
        V o[] = {V(10 + I)...};
        int z[] = {(wide_obj[I] = &o[I], wide_cur[I] = 10 + I)...};
        Begin e(0, nullptr, false);
        int times = 1 + choose(2);
        // an rvalue stands for the object of a V&& position; a V position gets the object itself and must not change it
        for (int t = 0; t < times; ++t) s(static_cast<std::conditional_t<(I + Rot) % 4 == 3, V&&, V&>>(o[I])...);
        if (e.c.calls != n * times) fail("%d of %d slots were invoked", e.c.calls, n * times);
        for (int i = 0; i < (int)sizeof...(I); ++i) if (o[i].id != wide_cur[i]) fail("the emitter's object %d holds %d, the slots left %d", i, o[i].id, wide_cur[i]);
    }
};
template<typename R, int N> void wide_n(bool th)
{
    using Q = std::make_integer_sequence<int, N>;
    switch (choose(4)) { case 0: Wide<R, 0, Q>::run(th); break; case 1: Wide<R, 1, Q>::run(th); break; case 2: Wide<R, 2, Q>::run(th); break; case 3: Wide<R, 3, Q>::run(th); break; }
}
template<typename R> void wide(bool th) { switch (choose(5)) { case 0: wide_n<R, 2>(th); break; case 1: wide_n<R, 3>(th); break; case 2: wide_n<R, 4>(th); break; case 3: wide_n<R, 5>(th); break; case 4: wide_n<R, 6>(th); break; } }
template<typename R, typename T> void sigs(bool th, bool full)
{
    switch (choose(4)) { case 0: one<R, T, T>(th, full); break; case 1: one<R, T, const T&>(th, full); break; case 2: one<R, T, T&>(th, full); break; case 3: one<R, T, T&&>(th, full); break; }
}
void c04(bool th)
{
    insts = 0; depth = 0; calm = true; keep.clear(); X = nullptr;
#if PART == 0
    sigs<int, V>(th, true);
#elif PART == 1
    sigs<void, V>(th, true);
#elif PART == 2
    sigs<int, std::string>(th, th);
#elif PART == 3
    sigs<void, std::shared_ptr<int>>(th, th);
#elif PART == 4
    sigs<void, int>(th, false);
#else
    switch (choose(6)) {
    case 0: multi<int>(th); break;
    case 1: multi<void>(th); break;
    case 2: special<int>(); break;
    case 3: special<void>(); break;
    case 4: wide<int>(th); break;
    case 5: wide<void>(th); break;
    }
#endif
    keep.clear(); nested = nullptr;
    if (insts) fail("%d argument objects were not destroyed (or destroyed twice)", insts);
}
const SuiteS suites[] = {{"C04", c04}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, 1); }
