// Engine S, C18: every kind of callable x binding x way of storing it x result type x arity.  One execution stores one
// callable, changes the original afterwards, invokes it (twice) with enumerated arguments and compares which function ran,
// on which object, with which arguments, the result, and the state of original and copy.
#include "signals.hpp"
#include "rt.h"
#include <functional>
#include <memory>
#include <string>
#include <utility>

namespace {
// ---------------------------------------------------------------- what ran
struct Ran { int fn, count; const void* obj; int a, b, c, state, d, e; } ran;
void ranfn(int fn, const void* obj, int state, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0) { step(); ++ran.count; ran.fn = fn; ran.obj = obj; ran.state = state; ran.a = a; ran.b = b; ran.c = c; ran.d = d; ran.e = e; }
int result_of_fn() { return ran.fn * 1000 + ran.state * 100 + ran.a * 9 + ran.b * 3 + ran.c; }

// raw result of a target -> expected result of the slot.  Every target returns a `Raw`
struct Base; struct Derived;
struct Rb { int v; }; struct Rd : Rb { int w; };
Rd rd_cell{{0}, 77};
template<typename R> struct Rs;      // raw type, make, check
template<> struct Rs<int> { using Raw = int; static Raw make() { return result_of_fn(); } static bool eq(const int& r) { return r == result_of_fn(); } };
template<> struct Rs<double> { using Raw = int; static Raw make() { return result_of_fn(); } static bool eq(const double& r) { return r == (double)result_of_fn(); } };
template<> struct Rs<long> { using Raw = short; static Raw make() { return (short)result_of_fn(); } static bool eq(const long& r) { return r == (long)(short)result_of_fn(); } };
template<> struct Rs<bool> { using Raw = int; static Raw make() { return result_of_fn() & 2; } static bool eq(const bool& r) { return r == bool(result_of_fn() & 2); } };
template<> struct Rs<std::string> { using Raw = std::string; static Raw make() { return "a result that needs the heap: " + std::to_string(result_of_fn()); } static bool eq(const std::string& r) { return r == make(); } };
template<> struct Rs<Rb*> { using Raw = Rd*; static Raw make() { return &rd_cell; } static bool eq(Rb* const& r) { return r == &rd_cell; } };
template<> struct Rs<void> { using Raw = int; static Raw make() { return result_of_fn(); } };
struct V0 {}; template<> struct Rs<V0> { using Raw = void; static void make() {} };       // signal of void, targets of void

// ---------------------------------------------------------------- targets, arity 0..3.  Q: tag of the result type
template<typename Q> using raw = typename Rs<Q>::Raw;
template<typename Q, typename... A> struct Obj {
    int st = 1; const Obj* ok; typename std::conditional<std::is_void<raw<Q>>::value, int, raw<Q>>::type data{};
    Obj() : ok(this) {} Obj(const Obj& o) : st(o.st), ok(this), data(o.data) { o.alive(); } virtual ~Obj() { alive(); ok = nullptr; }
    Obj& operator=(const Obj& o) { st = o.st; data = o.data; return *this; }
    void alive() const { if (ok != this) fail("a target runs on an object that does not exist"); }
    raw<Q> plain(A... a) { alive(); ++st; ranfn(1, this, st, a...); return Rs<Q>::make(); }
    raw<Q> cplain(A... a) const { alive(); ranfn(2, this, st, a...); return Rs<Q>::make(); }
    virtual raw<Q> virt(A... a) { alive(); ++st; ranfn(3, this, st, a...); return Rs<Q>::make(); }
    virtual raw<Q> cvirt(A... a) const { alive(); ranfn(4, this, st, a...); return Rs<Q>::make(); }
    raw<Q> nx(A... a) noexcept { alive(); ++st; ranfn(5, this, st, a...); return Rs<Q>::make(); }
    raw<Q> lref(A... a) & { alive(); ++st; ranfn(6, this, st, a...); return Rs<Q>::make(); }
    raw<Q> over(A... a) { alive(); ++st; ranfn(7, this, st, a...); return Rs<Q>::make(); }
    raw<Q> over(A... a) const { alive(); ranfn(8, this, st, a...); return Rs<Q>::make(); }
    raw<Q> cnx(A... a) const noexcept { alive(); ranfn(9, this, st, a...); return Rs<Q>::make(); }
};
template<typename Q, typename... A> struct Der : Obj<Q, A...> {
    raw<Q> virt(A... a) override { this->alive(); ++this->st; ranfn(13, this, this->st, a...); return Rs<Q>::make(); }
    raw<Q> cvirt(A... a) const override { this->alive(); ranfn(14, this, this->st, a...); return Rs<Q>::make(); }
    raw<Q> own(A... a) { this->alive(); ++this->st; ranfn(15, this, this->st, a...); return Rs<Q>::make(); }
};
struct Pad { int pad[3]; virtual ~Pad() {} };
template<typename Q, typename... A> struct Multi : Pad, Der<Q, A...> {};                          // the object is not at the start
template<typename Q, typename... A> struct Virt : Pad, virtual Der<Q, A...> {};
template<typename T> struct Deref { T* p; T& operator*() const { return *p; } bool operator==(const Deref& o) const { return p == o.p; } };      // a pointer-like object that tracks nothing
template<typename Q, typename... A> raw<Q> freefn(A... a) { ranfn(20, nullptr, 0, a...); return Rs<Q>::make(); }
template<typename Q, typename... A> raw<Q> freefn2(A... a) { ranfn(21, nullptr, 0, a...); return Rs<Q>::make(); }
template<typename Q, typename... A> struct Ftor {
    int st = 1; const Ftor* ok; Ftor() : ok(this) {} Ftor(const Ftor& o) : st(o.st), ok(this) { o.alive(); } ~Ftor() { alive(); ok = nullptr; } Ftor& operator=(const Ftor&) = delete;
    void alive() const { if (ok != this) fail("a function object runs that does not exist"); }
    raw<Q> operator()(A... a) { alive(); ++st; ranfn(30, this, st, a...); return Rs<Q>::make(); }
};
template<typename Q, typename... A> struct CFtor {
    int st = 1;
    raw<Q> operator()(A... a) const { ranfn(31, this, st, a...); return Rs<Q>::make(); }
};
template<typename Q, typename... A> struct OFtor {           // several call operators
    int st = 1;
    raw<Q> operator()(A... a) { ++st; ranfn(32, this, st, a...); return Rs<Q>::make(); }
    raw<Q> operator()(A... a) const { ranfn(33, this, st, a...); return Rs<Q>::make(); }
    void operator()(const char*, A...) { fail("the wrong call operator was selected"); }
};
template<typename Q, typename... A> struct Stat { static raw<Q> f(A... a) { ranfn(22, nullptr, 0, a...); return Rs<Q>::make(); } };

// ---------------------------------------------------------------- invocation
template<typename R> struct Check { template<typename O> static void go(const O& o, bool inv) { if (bool(o) != inv) fail(inv ? "the invocation yielded nothing" : "an invocation that must not happen yielded a value"); if (inv && !Rs<R>::eq(*o)) fail("the invocation yielded another value than its target returned"); } };
template<> struct Check<void> { template<typename O> static void go(const O& o, bool) { if (o) fail("a void invocation yielded a value"); } };

int av, bv, cv;
// the slots' result type: what the signal returns for tag Q
template<typename Q> struct Sg { using R = Q; }; template<> struct Sg<V0> { using R = void; };

template<typename Q, typename... A> struct Store {
    using R = typename Sg<Q>::R; using Signal = sig::signal<R(A...)>; using Slot = sig::slot<R(A...)>;
    Signal s; sig::connection c; sig::scoped_connection sc; Slot sl; bool direct = false;
    static const int ways = 9;
    template<typename... F> void put(int way, F&&... f)
    {
        if (way == 0) c = s.connect(std::forward<F>(f)...);
        else if (way == 1) sc = s.connect_scoped(std::forward<F>(f)...);
        else slotway(way, Slot(std::forward<F>(f)...));
    }
    void slotway(int way, Slot x)
    {
        switch (way) {
        case 2: c = s.connect(x); break;
        case 3: sc = s.connect_scoped(x); break;
        case 4: sl = std::move(x); direct = true; break;
        case 5: sl = x; direct = true; break;
        case 6: { Slot y(x); Slot z(std::move(y)); sl = std::move(z); direct = true; break; }
        case 7: { Signal t; c = t.connect(x); s = std::move(t); break; }
        case 8: { Slot y; y = x; c = s.connect(std::move(y)); break; }
        }
        if (direct && !sl) fail("a slot made from a callable is empty");
    }
    void call(std::integral_constant<int, 0>, bool inv) { if (direct) Check<R>::go(sl(), inv); else Check<R>::go(s(), inv); }
    void call(std::integral_constant<int, 1>, bool inv) { if (direct) Check<R>::go(sl(int(av)), inv); else Check<R>::go(s(av), inv); }
    void call(std::integral_constant<int, 2>, bool inv) { if (direct) Check<R>::go(sl(int(av), int(bv)), inv); else Check<R>::go(s(av, bv), inv); }
    void call(std::integral_constant<int, 3>, bool inv) { if (direct) Check<R>::go(sl(int(av), int(bv), int(cv)), inv); else Check<R>::go(s(av, bv, cv), inv); }
    void call(std::integral_constant<int, 5>, bool inv) { if (direct) Check<R>::go(sl(int(av), int(bv), int(cv), 11, 13), inv); else Check<R>::go(s(av, bv, cv, 11, 13), inv); }
    // the target fn must run once, on obj (if given) or on something that is not `other`, in state st
    void invoke(int fn, const void* obj, const void* other, int st, bool inv = true)
    {
        ran = Ran{-1, 0, nullptr, 0, 0, 0, 0}; const int n = sizeof...(A);
        av = 1 + choose(2); bv = 4; cv = 7;
        note("invoke with %d arguments, first %d\n", n, av);
        call(std::integral_constant<int, sizeof...(A)>(), inv);
        if (!inv) { if (ran.count) fail("the target was invoked"); return; }
        if (ran.count != 1) fail("the target was invoked %d times", ran.count);
        if (ran.fn != fn) fail("function %d ran, expected %d", ran.fn, fn);
        if (obj && ran.obj != obj) fail("function %d ran on another object", fn);
        if (other && ran.obj == other) fail("function %d ran on the original object, expected a private copy", fn);
        if (ran.state != st) fail("function %d ran in state %d of its object, expected %d", fn, ran.state, st);
        if ((n > 0 && ran.a != av) || (n > 1 && ran.b != bv) || (n > 2 && ran.c != cv) || (n > 3 && (ran.d != 11 || ran.e != 13))) fail("function %d received wrong arguments %d %d %d %d %d", fn, ran.a, ran.b, ran.c, ran.d, ran.e);
    }
};

// member functions: fn number, whether it changes the state
template<typename Q, typename... A> struct Mem {
    using S = Store<Q, A...>; using O = Obj<Q, A...>; using D = Der<Q, A...>;
    // binding of member pointer m (of O or D) to object of type T
    template<typename T, typename M, bool CONST> static void bind(M m, int fn, int binding, int way, bool passed)
    {
        S x; int d = CONST ? 0 : 1;
        switch (binding) {
        case 0: { T o; o.st = 5; x.put(way, m, &o); o.st = 7; x.invoke(fn, static_cast<const O*>(&o), nullptr, 7 + d); x.invoke(fn, static_cast<const O*>(&o), nullptr, 7 + 2 * d); break; }
        case 1: { T o; o.st = 5; x.put(way, m, std::ref(o)); o.st = 7; x.invoke(fn, static_cast<const O*>(&o), nullptr, 7 + d); x.invoke(fn, static_cast<const O*>(&o), nullptr, 7 + 2 * d); break; }
        case 2: { T o; o.st = 5; x.put(way, m, o); o.st = 7; x.invoke(fn, nullptr, static_cast<const O*>(&o), 5 + d); x.invoke(fn, nullptr, static_cast<const O*>(&o), 5 + 2 * d); if (o.st != 7) fail("the original object changed"); break; }
        case 3: { std::shared_ptr<T> o = std::make_shared<T>(); o->st = 5; x.put(way, m, o); o->st = 7; x.invoke(fn, static_cast<const O*>(o.get()), nullptr, 7 + d); x.invoke(fn, static_cast<const O*>(o.get()), nullptr, 7 + 2 * d); o.reset(); x.invoke(fn, nullptr, nullptr, 0, false); break; }
        case 4: { std::shared_ptr<T> o = std::make_shared<T>(); std::weak_ptr<T> w(o); o->st = 5; x.slotway(way < 2 ? 2 : way, typename S::Slot(m, w)); o->st = 7; x.invoke(fn, static_cast<const O*>(o.get()), nullptr, 7 + d); x.invoke(fn, static_cast<const O*>(o.get()), nullptr, 7 + 2 * d); o.reset(); x.invoke(fn, nullptr, nullptr, 0, false); break; }
        case 5: { T o; o.st = 5; T* const p = &o; const M cm(m); x.put(way, cm, p); o.st = 7; x.invoke(fn, static_cast<const O*>(&o), nullptr, 7 + d); break; }
        case 6: { std::shared_ptr<T> o = std::make_shared<T>(); const std::shared_ptr<T> co(o); o->st = 7; x.put(way, m, co); x.invoke(fn, static_cast<const O*>(o.get()), nullptr, 7 + d); break; }
        case 7: { T o; o.st = 5; x.put(way, m, Deref<T>{&o}); o.st = 7; x.invoke(fn, static_cast<const O*>(&o), nullptr, 7 + d); x.invoke(fn, static_cast<const O*>(&o), nullptr, 7 + 2 * d); break; }
        }
        (void)passed;
    }
    // through the base class: the object is of type D
    template<typename M, bool CONST> static void base(M m, int fn, int binding, int way)
    {
        S x; int d = CONST ? 0 : 1;
        switch (binding) {
        case 0: { D o; o.st = 5; O* p = &o; x.put(way, m, p); o.st = 7; x.invoke(fn, static_cast<O*>(&o), nullptr, 7 + d); break; }
        case 1: { D o; o.st = 5; O& p = o; x.put(way, m, std::ref(p)); o.st = 7; x.invoke(fn, static_cast<O*>(&o), nullptr, 7 + d); break; }
        case 2: { std::shared_ptr<D> o = std::make_shared<D>(); std::shared_ptr<O> p(o); o->st = 5; x.put(way, m, p); o->st = 7; x.invoke(fn, static_cast<O*>(o.get()), nullptr, 7 + d); break; }
        case 3: { std::shared_ptr<D> o = std::make_shared<D>(); std::weak_ptr<O> p(o); o->st = 5; x.slotway(way < 2 ? 2 : way, typename S::Slot(m, p)); o->st = 7; x.invoke(fn, static_cast<O*>(o.get()), nullptr, 7 + d); break; }
        }
    }
    template<typename M> static void cbind(M m, int fn, int binding, int way)
    {
        S x;
        switch (binding) {
        case 0: { O o; o.st = 5; const O* p = &o; x.put(way, m, p); o.st = 7; x.invoke(fn, &o, nullptr, 7); break; }
        case 1: { O o; o.st = 5; x.put(way, m, std::cref(o)); o.st = 7; x.invoke(fn, &o, nullptr, 7); break; }
        case 2: { std::shared_ptr<O> o = std::make_shared<O>(); std::shared_ptr<const O> p(o); o->st = 5; x.put(way, m, p); o->st = 7; x.invoke(fn, o.get(), nullptr, 7); break; }
        case 3: { O o; o.st = 5; const O& co = o; x.put(way, m, co); o.st = 7; x.invoke(fn, nullptr, &o, 5); break; }
        }
    }
    static void run(int way)
    {
        using MF = raw<Q> (O::*)(A...); using CMF = raw<Q> (O::*)(A...) const;
        int k = choose(5);
        if (k == 0) {
            int b = choose(8), f = choose(9);
            note("member function %d, binding %d, way %d\n", f, b, way);
            switch (f) {
            case 0: bind<O, MF, false>(&O::plain, 1, b, way, false); break;
            case 1: bind<O, CMF, true>(&O::cplain, 2, b, way, false); break;
            case 2: bind<O, MF, false>(&O::virt, 3, b, way, false); break;
            case 3: bind<O, CMF, true>(&O::cvirt, 4, b, way, false); break;
            case 4: bind<O, decltype(&O::nx), false>(&O::nx, 5, b, way, false); break;
            case 5: bind<O, decltype(&O::lref), false>(&O::lref, 6, b, way, false); break;
            case 6: bind<O, MF, false>(&O::over, 7, b, way, false); break;
            case 7: bind<O, CMF, true>(&O::over, 8, b, way, false); break;
            case 8: bind<O, decltype(&O::cnx), true>(&O::cnx, 9, b, way, false); break;
            }
        } else if (k == 1) {                         // objects of the derived class
            int b = choose(8), f = choose(5);
            note("member function %d of the derived class, binding %d, way %d\n", f, b, way);
            switch (f) {
            case 0: bind<D, MF, false>(&O::plain, 1, b, way, false); break;
            case 1: bind<D, MF, false>(&O::virt, 13, b, way, false); break;
            case 2: bind<D, CMF, true>(&O::cvirt, 14, b, way, false); break;
            case 3: bind<D, decltype(&D::own), false>(&D::own, 15, b, way, false); break;
            case 4: bind<D, decltype(&D::virt), false>(&D::virt, 13, b, way, false); break;
            }
        } else if (k == 2) {
            int b = choose(4), f = choose(3);
            note("member function %d through the base class, binding %d, way %d\n", f, b, way);
            switch (f) { case 0: base<MF, false>(&O::plain, 1, b, way); break; case 1: base<MF, false>(&O::virt, 13, b, way); break; case 2: base<CMF, true>(&O::cvirt, 14, b, way); break; }
        } else if (k == 4) {                         // several bases
            using MI = Multi<Q, A...>; using VI = Virt<Q, A...>;
            int b = choose(8), f = choose(6);
            note("member function %d, multiple or virtual inheritance, binding %d, way %d\n", f, b, way);
            switch (f) {
            case 0: bind<MI, MF, false>(&O::plain, 1, b, way, false); break;
            case 1: bind<MI, MF, false>(&O::virt, 13, b, way, false); break;
            case 2: bind<MI, raw<Q> (D::*)(A...), false>(&D::own, 15, b, way, false); break;
            case 3: bind<VI, MF, false>(&O::virt, 13, b, way, false); break;
            case 4: bind<VI, CMF, true>(&O::cvirt, 14, b, way, false); break;
            case 5: bind<VI, raw<Q> (D::*)(A...), false>(&D::own, 15, b, way, false); break;
            }
        } else {
            int b = choose(4), f = choose(3);
            note("const member function %d, const binding %d, way %d\n", f, b, way);
            switch (f) { case 0: cbind<CMF>(&O::cplain, 2, b, way); break; case 1: cbind<CMF>(&O::cvirt, 4, b, way); break; case 2: cbind<CMF>(&O::over, 8, b, way); break; }
        }
    }
};

template<typename Q, typename... A> struct Bound;
template<typename Q> struct Bound<Q> { template<typename F> static auto all(F f) -> decltype(std::bind(f)) { return std::bind(f); } template<typename M, typename P> static auto mem(M m, P p) -> decltype(std::bind(m, p)) { return std::bind(m, p); } };
template<typename Q> struct Bound<Q, int> { template<typename F> static auto all(F f) -> decltype(std::bind(f, std::placeholders::_1)) { return std::bind(f, std::placeholders::_1); } template<typename M, typename P> static auto mem(M m, P p) -> decltype(std::bind(m, p, std::placeholders::_1)) { return std::bind(m, p, std::placeholders::_1); } };
template<typename Q> struct Bound<Q, int, int> { template<typename F> static auto all(F f) -> decltype(std::bind(f, std::placeholders::_1, std::placeholders::_2)) { return std::bind(f, std::placeholders::_1, std::placeholders::_2); } template<typename M, typename P> static auto mem(M m, P p) -> decltype(std::bind(m, p, std::placeholders::_1, std::placeholders::_2)) { return std::bind(m, p, std::placeholders::_1, std::placeholders::_2); } };
template<typename Q> struct Bound<Q, int, int, int> { template<typename F> static auto all(F f) -> decltype(std::bind(f, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3)) { return std::bind(f, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3); } template<typename M, typename P> static auto mem(M m, P p) -> decltype(std::bind(m, p, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3)) { return std::bind(m, p, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3); } };

template<typename Q, typename... A> void functions(int way)
{
    using F = Ftor<Q, A...>; using C = CFtor<Q, A...>; using OF = OFtor<Q, A...>; using O = Obj<Q, A...>;
    using FP = raw<Q> (*)(A...);
    Store<Q, A...> x;
    int k = choose(20);
    note("function kind %d, way %d\n", k, way);
    switch (k) {
    case 0: x.put(way, freefn<Q, A...>); x.invoke(20, nullptr, nullptr, 0); break;
    case 1: x.put(way, &freefn2<Q, A...>); x.invoke(21, nullptr, nullptr, 0); break;
    case 2: { FP p = freefn<Q, A...>; x.put(way, p); p = freefn2<Q, A...>; x.invoke(20, nullptr, nullptr, 0); break; }
    case 3: { const FP p = freefn2<Q, A...>; x.put(way, p); x.invoke(21, nullptr, nullptr, 0); break; }
    case 4: x.put(way, Stat<Q, A...>::f); x.invoke(22, nullptr, nullptr, 0); break;
    case 5: { F f; f.st = 5; x.put(way, f); f.st = 7; x.invoke(30, nullptr, &f, 6); x.invoke(30, nullptr, &f, 7); if (f.st != 7) fail("the original function object changed"); break; }
    case 6: { F f; f.st = 5; x.put(way, std::move(f)); x.invoke(30, nullptr, &f, 6); x.invoke(30, nullptr, &f, 7); break; }
    case 7: { F f; f.st = 5; const F& g = f; if (way < 2) x.slotway(2, typename Store<Q, A...>::Slot(g)); else x.put(way, g); f.st = 7; x.invoke(30, nullptr, &f, 6); break; }
    case 8: { F f; f.st = 5; x.put(way, std::ref(f)); f.st = 7; x.invoke(30, &f, nullptr, 8); x.invoke(30, &f, nullptr, 9); if (f.st != 9) fail("a function object passed by reference did not change"); break; }
    case 9: { C f; f.st = 5; x.put(way, f); f.st = 7; x.invoke(31, nullptr, &f, 5); break; }
    case 10: { C f; f.st = 5; x.put(way, std::cref(f)); f.st = 7; x.invoke(31, &f, nullptr, 7); break; }
    case 11: { OF f; f.st = 5; x.put(way, f); x.invoke(32, nullptr, &f, 6); break; }
    case 12: { int n = 3; x.put(way, [n](A... a) { ranfn(40, nullptr, n, a...); return Rs<Q>::make(); }); n = 9; x.invoke(40, nullptr, nullptr, 3); break; }
    case 13: { int n = 3; x.put(way, [n](A... a) mutable { ++n; ranfn(41, nullptr, n, a...); return Rs<Q>::make(); }); x.invoke(41, nullptr, nullptr, 4); x.invoke(41, nullptr, nullptr, 5); break; }
    case 14: { int n = 3; x.put(way, [&n](A... a) { ranfn(42, nullptr, n, a...); return Rs<Q>::make(); }); n = 9; x.invoke(42, nullptr, nullptr, 9); break; }
    case 15: x.put(way, [](auto... a) { ranfn(43, nullptr, 0, a...); return Rs<Q>::make(); }); x.invoke(43, nullptr, nullptr, 0); break;
    case 16: { F f; f.st = 5; std::function<raw<Q>(A...)> g(f); x.put(way, g); g = freefn<Q, A...>; x.invoke(30, nullptr, nullptr, 6); x.invoke(30, nullptr, nullptr, 7); break; }
    case 17: x.put(way, Bound<Q, A...>::all(&freefn<Q, A...>)); x.invoke(20, nullptr, nullptr, 0); break;
    case 18: { O o; o.st = 5; x.put(way, Bound<Q, A...>::mem(&O::plain, &o)); o.st = 7; x.invoke(1, &o, nullptr, 8); break; }
    case 19: { O o; o.st = 5; x.put(way, Bound<Q, A...>::mem(&O::plain, o)); o.st = 7; x.invoke(1, nullptr, &o, 6); x.invoke(1, nullptr, &o, 7); break; }
    }
}
// member data, no arguments
template<typename Q> struct DataOf { static raw<Q> make(int n) { ran.fn = n; return Rs<Q>::make(); } };
template<typename Q> void data(int way)
{
    using R = typename Sg<Q>::R; using O = Obj<Q>; using D = Der<Q>;
    Store<Q> x; int k = choose(8);
    ran = Ran{3, 0, nullptr, 0, 0, 0, 0};
    note("member data, binding %d, way %d\n", k, way);
    auto val = Rs<Q>::make();      // eq() below compares with the value of fn 3
    auto call = [&](bool inv) { ran = Ran{3, 0, nullptr, 0, 0, 0, 0}; step(); if (x.direct) Check<R>::go(x.sl(), inv); else Check<R>::go(x.s(), inv); };
    switch (k) {
    case 0: { O o; x.put(way, &O::data, &o); o.data = val; call(true); break; }
    case 1: { O o; x.put(way, &O::data, std::ref(o)); o.data = val; call(true); break; }
    case 2: { O o; o.data = val; x.put(way, &O::data, o); o.data = decltype(o.data)(); call(true); break; }
    case 3: { auto o = std::make_shared<O>(); x.put(way, &O::data, o); o->data = val; call(true); o.reset(); call(false); break; }
    case 4: { auto o = std::make_shared<O>(); x.slotway(way < 2 ? 2 : way, typename Store<Q>::Slot(&O::data, std::weak_ptr<O>(o))); o->data = val; call(true); o.reset(); call(false); break; }
    case 5: { D o; x.put(way, &O::data, &o); o.data = val; call(true); break; }
    case 6: { D o; O* p = &o; x.put(way, &O::data, p); o.data = val; call(true); break; }
    case 7: { O o; const O* p = &o; x.put(way, &O::data, p); o.data = val; call(true); break; }
    }
}
// member pointers and pointers to objects as arguments of the signal
void unbound()
{
    using O = Obj<int, int>; O o; o.st = 5;
    ran = Ran{-1, 0, nullptr, 0, 0, 0, 0}; opt::optional<int> r;
    int k = choose(8);
    note("unbound member, %d\n", k);
    switch (k) {
    case 0: { sig::signal<int(O&, int)> s; s.connect(&O::plain); r = s(o, 2); break; }
    case 1: { sig::signal<int(O*, int)> s; s.connect(&O::plain); r = s(&o, 2); break; }
    case 2: { sig::signal<int(O*, int)> s; s.connect(std::mem_fn(&O::plain)); r = s(&o, 2); break; }
    case 3: { sig::signal<int(O&, int)> s; s.connect(std::mem_fn(&O::plain)); r = s(o, 2); break; }
    case 4: { sig::slot<int(O&, int)> s(&O::plain); r = s(o, 2); break; }
    case 5: { sig::signal<int(O*, int)> s; auto c = s.connect_scoped(&O::plain); r = s(&o, 2); break; }
    case 6: { auto p = std::make_shared<O>(); p->st = 5; sig::signal<int(std::shared_ptr<O>, int)> s; s.connect(&O::plain); r = s(p, 2); if (ran.obj != p.get()) fail("ran on another object"); ran.obj = &o; if (p->st != 6) fail("state lost"); o.st = 6; break; }
    case 7: { sig::signal<int(std::reference_wrapper<O>, int)> s; s.connect(&O::plain); r = s(std::ref(o), 2); break; }
    }
    if (ran.count != 1 || ran.fn != 1 || ran.obj != &o || ran.a != 2 || o.st != 6) fail("an unbound member function was not invoked on the object passed");
    if (!r || *r != result_of_fn()) fail("the result of an unbound member function is lost");
}
// fewer kinds, for the other result types and arities: one of each slot implementation
template<typename Q, typename... A> void reduced(int way)
{
    using F = Ftor<Q, A...>; using O = Obj<Q, A...>; using D = Der<Q, A...>; using MF = raw<Q> (O::*)(A...);
    Store<Q, A...> x; int k = choose(9);
    note("reduced kind %d, way %d\n", k, way);
    switch (k) {
    case 0: x.put(way, freefn<Q, A...>); x.invoke(20, nullptr, nullptr, 0); break;
    case 1: { F f; f.st = 5; x.put(way, f); f.st = 7; x.invoke(30, nullptr, &f, 6); x.invoke(30, nullptr, &f, 7); break; }
    case 2: { int n = 3; x.put(way, [n](A... a) { ranfn(40, nullptr, n, a...); return Rs<Q>::make(); }); x.invoke(40, nullptr, nullptr, 3); break; }
    case 3: { D o; MF m = choose(2) ? &O::plain : &O::virt; int fn = m == &O::plain ? 1 : 13; o.st = 5; x.put(way, m, &o); o.st = 7; x.invoke(fn, &o, nullptr, 8); break; }
    case 4: { D o; MF m = choose(2) ? &O::plain : &O::virt; int fn = m == &O::plain ? 1 : 13; o.st = 5; x.put(way, m, o); o.st = 7; x.invoke(fn, nullptr, &o, 6); x.invoke(fn, nullptr, &o, 7); break; }
    case 5: { D o; o.st = 5; x.put(way, &O::plain, std::ref(o)); o.st = 7; x.invoke(1, &o, nullptr, 8); break; }
    case 6: { auto o = std::make_shared<O>(); o->st = 5; x.put(way, &O::virt, o); o->st = 7; x.invoke(3, o.get(), nullptr, 8); o.reset(); x.invoke(3, nullptr, nullptr, 0, false); break; }
    case 7: { auto o = std::make_shared<O>(); std::weak_ptr<O> w(o); o->st = 5; x.slotway(way < 2 ? 2 : way, typename Store<Q, A...>::Slot(&O::plain, w)); x.invoke(1, o.get(), nullptr, 6); o.reset(); x.invoke(1, nullptr, nullptr, 0, false); break; }
    case 8: { F f; f.st = 5; x.put(way, std::ref(f)); f.st = 7; x.invoke(30, &f, nullptr, 8); break; }
    }
}
template<typename Q> void full() { int way = choose(9); if (choose(2)) Mem<Q, int>::run(way); else functions<Q, int>(way); }
template<typename Q> void other() { int way = choose(9); switch (choose(5)) { case 4: reduced<Q, int, int, int, int, int>(way); break; case 0: reduced<Q>(way); break; case 1: reduced<Q, int, int>(way); break; case 2: reduced<Q, int, int, int>(way); break; case 3: data<Q>(way); break; } }
template<typename Q> void conv() { int way = choose(9); if (choose(2)) reduced<Q, int>(way); else data<Q>(way); }
void c18(bool)
{
#if PART == 0
    full<int>();
#elif PART == 1
    full<void>();
#elif PART == 2
    if (choose(2)) other<int>(); else unbound();
#elif PART == 3
    if (choose(2)) other<void>(); else if (choose(2)) reduced<V0>(choose(9)); else reduced<V0, int>(choose(9));
#elif PART == 4
    switch (choose(3)) { case 0: conv<double>(); break; case 1: conv<long>(); break; case 2: conv<std::string>(); break; }
#else
    if (choose(2)) conv<Rb*>(); else conv<bool>();
#endif
}
const SuiteS suites[] = {{"C18", c18}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, 1); }
