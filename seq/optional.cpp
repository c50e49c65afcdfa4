// Engine S, C20 (opt::optional against std::optional over every history) and C21 (comparisons).
#include "optional.hpp"
#include "rt.h"
#include <initializer_list>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace {
// ---------------------------------------------------------------- value types
int insts, budget; bool armed;
struct Boom {};
void may_throw() { if (armed && budget > 0 && choose(2)) { --budget; note("    throws\n"); throw Boom(); } }
struct U { int id; };                           // converts to the value types
struct Src { int id; };                         // an argument that shows whether it was moved from
template<bool NC, bool NA> struct TrX {         // copyable, every member may throw, apart from the moves told not to
    int id; const TrX* self;
    TrX() : id(0), self(this) { may_throw(); ++insts; }
    TrX(int i) : id(i), self(this) { may_throw(); ++insts; }
    TrX(int i, int j) : id(i + j), self(this) { may_throw(); ++insts; }
    TrX(std::initializer_list<int> il, int j) : id(j), self(this) { for (int i : il) id += i; may_throw(); ++insts; }
    TrX(std::initializer_list<int> il) : id(0), self(this) { for (int i : il) id += i; may_throw(); ++insts; }
    TrX(int i, const Src& s) : id(i + s.id), self(this) { may_throw(); ++insts; }
    TrX(int i, Src&& s) : id(i + s.id), self(this) { may_throw(); s.id = -1; ++insts; }
    TrX(std::initializer_list<int> il, const Src& s) : id(s.id), self(this) { for (int i : il) id += i; may_throw(); ++insts; }
    TrX(std::initializer_list<int> il, Src&& s) : id(s.id), self(this) { for (int i : il) id += i; may_throw(); s.id = -1; ++insts; }
    TrX(const U& u) : id(u.id), self(this) { may_throw(); ++insts; }
    TrX(U&& u) : id(u.id), self(this) { may_throw(); u.id = -1; ++insts; }
    TrX(const TrX& o) : id(o.ok()), self(this) { may_throw(); ++insts; }
    TrX(TrX&& o) noexcept(NC) : id(o.ok()), self(this) { if (!NC) may_throw(); o.id = -1; ++insts; }
    TrX& operator=(const TrX& o) { ok(); o.ok(); may_throw(); id = o.id; return *this; }
    TrX& operator=(TrX&& o) noexcept(NA) { ok(); o.ok(); if (!NA) may_throw(); int i = o.id; o.id = -1; id = i; return *this; }
    ~TrX() { ok(); self = nullptr; --insts; }
    int ok() const { if (self != this) fail("an object that does not exist (or no longer exists) is used"); return id; }
};
using Tr = TrX<false, false>;
struct Mo {                                     // move only, nothrow
    int id; const Mo* self;
    Mo(int i) : id(i), self(this) { ++insts; }
    Mo(int i, int j) : id(i + j), self(this) { ++insts; }
    Mo(U&& u) : id(u.id), self(this) { u.id = -1; ++insts; }
    Mo(Mo&& o) noexcept : id(o.ok()), self(this) { o.id = -1; ++insts; }
    Mo& operator=(Mo&& o) noexcept { ok(); o.ok(); int i = o.id; o.id = -1; id = i; return *this; }
    ~Mo() { ok(); self = nullptr; --insts; }
    int ok() const { if (self != this) fail("an object that does not exist (or no longer exists) is used"); return id; }
};
template<typename T> struct Ty;
template<bool C, bool A> struct Ty<TrX<C, A>> { static const bool cls = true; static int id(const TrX<C, A>& t) { return t.ok(); } static TrX<C, A> make(int i) { return TrX<C, A>(i); } };
template<typename T> struct IsTr { static const bool value = false; };
template<bool C, bool A> struct IsTr<TrX<C, A>> { static const bool value = true; };
template<> struct Ty<Mo> { static const bool cls = true; static int id(const Mo& t) { return t.ok(); } static Mo make(int i) { return Mo(i); } };
template<> struct Ty<int> { static const bool cls = false; static int id(const int& t) { return t; } static int make(int i) { return i; } };
int cells[64];
template<> struct Ty<int*> { static const bool cls = false; static int id(int* const& t) { return t ? int(t - cells) : -5; } static int* make(int i) { return &cells[i]; } };
template<> struct Ty<double> { static const bool cls = false; static int id(const double& t) { return (int)t; } static double make(int i) { return i; } };
template<> struct Ty<bool> { static const bool cls = false; static int id(const bool& t) { return t; } static bool make(int i) { return i & 1; } };
template<> struct Ty<std::string> { static const bool cls = true; static int id(const std::string& t) { return t.empty() ? -1 : (int)t.size() < 30 ? -2 : atoi(t.c_str() + 30); } static std::string make(int i) { return "a string that needs the heap: " + std::to_string(i); } };
enum class En : short {};
template<> struct Ty<En> { static const bool cls = false; static int id(const En& t) { return (int)t; } static En make(int i) { return En(i); } };
struct alignas(64) Al { int id; char pad[100]; };         // over-aligned, larger than a cache line, trivially copyable
template<> struct Ty<Al> { static const bool cls = false; static int id(const Al& t) { for (char c : t.pad) if (c != (char)t.id) fail("a part of the value is wrong"); return t.id; } static Al make(int i) { Al a; a.id = i; for (char& c : a.pad) c = (char)i; return a; } };
// the model's value: moves like T
template<bool M> struct Rv {
    int id; Rv(int i) : id(i) {} Rv(const Rv&) = default; Rv& operator=(const Rv&) = default;
    Rv(Rv&& o) noexcept : id(o.id) { if (M) o.id = -1; } Rv& operator=(Rv&& o) noexcept { int i = o.id; if (M) o.id = -1; id = i; return *this; }
};

template<typename T, typename CU> struct W20 {
    using O = opt::optional<T>; using R = Rv<Ty<T>::cls>; using M = std::optional<R>; using OU = opt::optional<CU>;
    static constexpr bool copies = std::is_copy_constructible<T>::value;
    static constexpr bool tr = IsTr<T>::value;
    struct Var { alignas(O) unsigned char mem[sizeof(O)]; O& o() { return *reinterpret_cast<O*>(mem); } bool live = false; } v[2];
    M m[2]; OU u; std::optional<int> mu;
    W20() { for (auto& x : v) { new (x.mem) O(); x.live = true; } }
    ~W20() { for (auto& x : v) if (x.live) x.o().~O(); }
    bool throwing = true; int fresh = 2; bool threw = false;
    int next() { return fresh += 2, fresh & 63; }
    static int uid(const CU& c) { if constexpr (std::is_same<CU, U>::value) return c.id; else return (int)c; }
    static CU umake(int i) { if constexpr (std::is_same<CU, U>::value) return U{i}; else return (CU)i; }
    static constexpr bool conv = !std::is_same<T, std::string>::value && !std::is_same<T, int*>::value && !std::is_same<T, bool>::value && !std::is_same<T, En>::value && !std::is_same<T, Al>::value;
    static int val(int i) { return std::is_same<T, bool>::value ? (i & 1) : i; }

    // observers
    void look(int i)
    {
        O& o = v[i].o(); const O& c = o; bool e = m[i].has_value();
        if (o.has_value() != e || bool(c) != e || c.is_initialized() != e) fail("optional %d is %sengaged, std::optional would be %s", i, o.has_value() ? "" : "dis", e ? "engaged" : "disengaged");
        bool t1 = !e, t2 = !e, t3 = false;
        if (e || throwing) {         // throwing is slow under the sanitizers: after histories of one operation only
        t1 = t2 = false;
        try { (void)o.value(); } catch (opt::bad_optional_access&) { t1 = true; }
        try { (void)c.value(); } catch (opt::bad_optional_access&) { t2 = true; }
        }
        if (t1 == e || t2 == e) fail("value() of %sengaged optional %d %s", e ? "an " : "a dis", i, e ? "threw" : "did not throw bad_optional_access");
        const T* p = o.get_ptr();
        if ((p != nullptr) != e || (c.get_ptr() != nullptr) != e || opt::get(&o) != p || opt::get(&c) != p || opt::get_pointer(o) != p || opt::get_pointer(c) != p) fail("the pointers of optional %d are inconsistent", i);
        if (e) {
            if (&*o != p || &*c != p || o.operator->() != p || c.operator->() != p || &o.value() != p || &c.value() != p || &o.get() != p || &c.get() != p || &opt::get(o) != p || &opt::get(c) != p) fail("the accessors of optional %d refer to different objects", i);
            if ((const unsigned char*)p < v[i].mem || (const unsigned char*)(p + 1) > v[i].mem + sizeof(O)) fail("the value of optional %d is not stored inside it", i);
            if ((uintptr_t)p % alignof(T)) fail("the value of optional %d is not aligned", i);
            if (Ty<T>::id(*p) != m[i]->id) fail("optional %d holds %d, std::optional would hold %d", i, Ty<T>::id(*p), m[i]->id);
        } else if (throwing) {
            try { (void)std::move(o).value(); } catch (opt::bad_optional_access&) { t3 = true; }
            if (!t3) fail("value() of a disengaged rvalue optional did not throw");
        }
        if constexpr (copies) {
            T f = Ty<T>::make(63); bool a = armed; armed = false;
            T r = c.value_or(f);
            if (Ty<T>::id(r) != (e ? m[i]->id : val(63))) fail("value_or of optional %d gave %d", i, Ty<T>::id(r));
            if (Ty<T>::id(f) != val(63)) fail("value_or changed an lvalue fallback");
            if (tr && throwing) { T r2 = c.value_or(std::move(f)); if (Ty<T>::id(r2) != (e ? m[i]->id : 63)) fail("value_or of optional %d gave %d", i, Ty<T>::id(r2)); if (Ty<T>::id(f) != (e ? 63 : -1)) fail(e ? "value_or moved from a fallback it did not use" : "value_or copied an rvalue fallback"); f = Ty<T>::make(63); }
            T& g = o.get_value_or(f); const T& h = c.get_value_or(f); const T& k = opt::get_optional_value_or(c, f); T& l = opt::get_optional_value_or(o, f);
            const T* w = e ? p : &f;
            if (&g != w || &h != w || &k != w || &l != w) fail("get_value_or of optional %d refers to the wrong object", i);
            armed = a;
        }
    }
    void check()
    {
        bool a = armed; armed = false;
        for (int i = 0; i < 2; ++i) look(i);
        if (u.has_value() != mu.has_value() || (u && uid(*u) != *mu)) fail("the converted-from optional is wrong");
        if (Ty<T>::cls && !std::is_same<T, std::string>::value) { int want = (int)m[0].has_value() + (int)m[1].has_value(); if (insts != want) fail("%d objects exist, %d optionals are engaged", insts, want); }
        armed = a;
    }
    template<typename F> void remake(int i, F f, M want)
    {
        if (v[i].live) { v[i].o().~O(); v[i].live = false; }
        armed = tr;
        try { f(v[i].mem); armed = false; v[i].live = true; m[i] = want; }
        catch (Boom&) { armed = false; new (v[i].mem) O(); v[i].live = true; m[i] = std::nullopt; }
    }
    // an assignment-like operation on variable i: rule for a throw
    template<typename F, typename G> void apply(int i, F real, G model, bool emplace = false)
    {
        armed = tr; threw = false;
        try { real(); armed = false; model(); }
        catch (Boom&) { armed = false; threw = true; if (emplace) m[i] = std::nullopt; }     // unchanged otherwise: the members throw before they change anything
    }
    enum { OPS = 50 };
    void op(int i, int k)
    {
        int j = 1 - i; O& a = v[i].o(); O& b = v[j].o(); M& ma = m[i]; M& mb = m[j]; int n = next();
        step();
        note("op %d on optional %d (value %d)\n", k, i, n);
        switch (k) {
        // constructions
        case 0: remake(i, [](void* p) { new (p) O(); }, {}); break;
        case 1: remake(i, [](void* p) { new (p) O(opt::nullopt); }, {}); break;
        case 2: if constexpr (copies) { T x = Ty<T>::make(n); remake(i, [&](void* p) { new (p) O(static_cast<const T&>(x)); }, R(val(n))); if (Ty<T>::id(x) != val(n)) fail("the copied value changed"); } break;
        case 3: { T x = Ty<T>::make(n); remake(i, [&](void* p) { new (p) O(std::move(x)); }, R(val(n))); break; }
        case 4: { T x = Ty<T>::make(n); remake(i, [&](void* p) { new (p) O(true, std::move(x)); }, R(val(n))); break; }
        case 5: { T x = Ty<T>::make(n); remake(i, [&](void* p) { new (p) O(false, std::move(x)); }, {}); break; }
        case 6: if constexpr (copies) remake(i, [&](void* p) { new (p) O(static_cast<const O&>(b)); }, mb); break;
        case 7: { M t(mb); if (v[i].live) { v[i].o().~O(); v[i].live = false; } armed = tr; try { new (v[i].mem) O(std::move(b)); armed = false; v[i].live = true; ma = std::move(mb); } catch (Boom&) { armed = false; new (v[i].mem) O(); v[i].live = true; ma = std::nullopt; } break; }
        case 8: if constexpr (copies && conv) remake(i, [&](void* p) { new (p) O(static_cast<const OU&>(u)); }, mu ? M(R(*mu)) : M()); break;
        case 9: if constexpr (conv) { bool had = mu.has_value(); int id = had ? *mu : 0; remake(i, [&](void* p) { new (p) O(std::move(u)); }, had ? M(R(id)) : M()); if (had) mu = uid(*u); } break;     // whether the source was moved from depends on T
        case 10: remake(i, [&](void* p) { new (p) O(opt::in_place, Ty<T>::make(n)); }, R(val(n))); break;
        case 11: if constexpr (tr) remake(i, [&](void* p) { new (p) O(opt::in_place, n, 1); }, R(n + 1)); break;
        case 12: if constexpr (tr) remake(i, [&](void* p) { new (p) O(opt::in_place, {n, 1}, 2); }, R(n + 3)); break;
        case 13: { bool c = choose(2); remake(i, [&](void* p) { new (p) O(opt::in_place_if, c, Ty<T>::make(n)); }, c ? M(R(val(n))) : M()); break; }
        case 14: if constexpr (tr) { bool c = choose(2); remake(i, [&](void* p) { new (p) O(opt::in_place_if, c, {n, 1}, 2); }, c ? M(R(n + 3)) : M()); } break;
        case 15: remake(i, [&](void* p) { new (p) O(opt::make_optional(Ty<T>::make(n))); }, R(val(n))); break;
        case 16: if constexpr (copies && !std::is_same<T, bool>::value) { const T x = Ty<T>::make(n); remake(i, [&](void* p) { new (p) O(opt::make_optional(x)); }, R(val(n))); } break;
        case 17: { if constexpr (!std::is_same<T, bool>::value) { bool c = choose(2); remake(i, [&](void* p) { new (p) O(opt::make_optional(c, Ty<T>::make(n))); }, c ? M(R(val(n))) : M()); } break; }
        case 18: if constexpr (tr) remake(i, [&](void* p) { new (p) O(opt::make_optional<T>(n, 1)); }, R(n + 1)); break;
        // assignments
        case 19: apply(i, [&] { a = opt::nullopt; }, [&] { ma = std::nullopt; }); break;
        case 20: if constexpr (copies) apply(i, [&] { a = static_cast<const O&>(b); }, [&] { ma = mb; }); break;
        case 21: apply(i, [&] { a = std::move(b); }, [&] { ma = std::move(mb); }); break;
        case 22: if constexpr (copies) { T x = Ty<T>::make(n); apply(i, [&] { a = x; }, [&] { ma = R(val(n)); }); if (Ty<T>::id(x) != val(n)) fail("the assigned value changed"); } break;
        case 23: if constexpr (copies) { const T x = Ty<T>::make(n); apply(i, [&] { a = x; }, [&] { ma = R(val(n)); }); } break;
        case 24: { T x = Ty<T>::make(n); apply(i, [&] { a = std::move(x); }, [&] { ma = R(val(n)); }); break; }
        case 25: if constexpr (copies && conv) apply(i, [&] { a = static_cast<const OU&>(u); }, [&] { if (mu) ma = R(*mu); else ma = std::nullopt; }); break;
        case 26: if constexpr (conv) { bool had = mu.has_value(); int id = had ? *mu : 0; apply(i, [&] { a = std::move(u); }, [&] { if (had) ma = R(id); else ma = std::nullopt; }); if (had) mu = uid(*u); } break;
        case 27: if constexpr (copies) { O& self = a; apply(i, [&] { a = self; }, [&] {}); } break;
        case 28: apply(i, [&] { a = O(); }, [&] { ma = std::nullopt; }); break;
        case 29: if (ma && copies) { if constexpr (copies) apply(i, [&] { a = *a; }, [&] {}); } break;
        case 30: apply(i, [&] { a = {}; }, [&] { ma = std::nullopt; }); break;
        // emplace, reset, swap
        case 31: apply(i, [&] { a.emplace(Ty<T>::make(n)); }, [&] { ma = R(val(n)); }, false); break;
        case 32: if constexpr (tr || std::is_same<T, Mo>::value) apply(i, [&] { a.emplace(n, 1); }, [&] { ma = R(n + 1); }, true); break;
        case 33: if constexpr (tr) apply(i, [&] { a.emplace({n, 1}, 2); }, [&] { ma = R(n + 3); }, true); break;
        case 34: if constexpr (tr) apply(i, [&] { a.emplace(); }, [&] { ma = R(0); }, true); break;
        case 35: a.reset(); ma = std::nullopt; break;
        case 36: a.swap(b); std::swap(ma, mb); break;
        case 37: { using std::swap; swap(a, b); std::swap(ma, mb); break; }
        // moving out
        case 38: if (ma) { T x(*std::move(a)); int w = ma->id; R y(*std::move(ma)); (void)y; if (Ty<T>::id(x) != w) fail("*std::move gave another value"); } break;
        case 39: if (ma) { T x(std::move(a).value()); int w = ma->id; R y(*std::move(ma)); (void)y; if (Ty<T>::id(x) != w) fail("value() && gave another value"); } break;
        case 40: { T f = Ty<T>::make(n); T x(std::move(a).value_or(std::move(f))); if (tr && Ty<T>::id(f) != (ma ? n : -1)) fail("value_or && %s", ma ? "moved from a fallback it did not use" : "copied an rvalue fallback"); int w = ma ? ma->id : val(n); if (ma) { R y(*std::move(ma)); (void)y; } if (Ty<T>::id(x) != w) fail("value_or && gave another value"); break; }
        case 41: if (ma) { *a = Ty<T>::make(n); *ma = R(val(n)); } break;
        case 42: { CU x = umake(n); if (choose(2)) { u = x; mu = n; } else { u = opt::nullopt; mu = std::nullopt; } break; }
        case 43: { O* pa = &a; O& ra = *pa; if constexpr (!Ty<T>::cls) { ra = std::move(a); } else if (!ma) ra = std::move(a); break; }      // moving onto itself leaves nothing as nothing
        // further arguments are passed on as they are: lvalues stay, rvalues are moved from
        default: if constexpr (tr) {
            bool rv = choose(2); Src src{100}; bool cond = true;
            switch (k) {
            case 44: apply(i, [&] { if (rv) a.emplace(n, std::move(src)); else a.emplace(n, src); }, [&] { ma = R(n + 100); }, true); break;
            case 45: apply(i, [&] { if (rv) a.emplace({n, 1}, std::move(src)); else a.emplace({n, 1}, src); }, [&] { ma = R(n + 101); }, true); break;
            case 46: remake(i, [&](void* p) { if (rv) new (p) O(opt::in_place, n, std::move(src)); else new (p) O(opt::in_place, n, src); }, R(n + 100)); break;
            case 47: remake(i, [&](void* p) { if (rv) new (p) O(opt::in_place, {n, 1}, std::move(src)); else new (p) O(opt::in_place, {n, 1}, src); }, R(n + 101)); break;
            case 48: cond = choose(2); remake(i, [&](void* p) { if (rv) new (p) O(opt::in_place_if, cond, n, std::move(src)); else new (p) O(opt::in_place_if, cond, n, src); }, cond ? M(R(n + 100)) : M()); break;
            case 49: cond = choose(2); remake(i, [&](void* p) { if (rv) new (p) O(opt::in_place_if, cond, {n, 1}, std::move(src)); else new (p) O(opt::in_place_if, cond, {n, 1}, src); }, cond ? M(R(n + 101)) : M()); break;
            }
            bool moved = rv && m[i].has_value();
            if (src.id != (moved ? -1 : 100)) fail(moved ? "an rvalue argument was not passed on as one" : "an argument that should have been left alone was moved from");
        }
        }
        // emplace of a temporary: the temporary may throw before anything happens, the construction after the old value is gone
        if (k == 31 && threw && !v[i].o().has_value()) ma = std::nullopt;
    }
};
// the operations that differ in their effect on the state, for longer histories
const int core[] = {6, 7, 19, 20, 21, 22, 24, 25, 26, 32, 34, 36, 38, 40, 41, 42};
template<typename T, typename CU> void hist(int depth, bool all = true, int faults = 1)
{
    insts = 0; armed = false; budget = faults;
    {
        W20<T, CU> w;
        // start: engaged / disengaged, the convertible optional too
        int st = choose(4);
        if (st & 1) { w.v[0].o() = Ty<T>::make(2); w.m[0].emplace(W20<T, CU>::val(2)); }
        if (st & 2) { w.v[1].o() = Ty<T>::make(1); w.m[1].emplace(1); }
        if (W20<T, CU>::conv && choose(2)) { w.u = W20<T, CU>::umake(40); w.mu = 40; }
        note("start: %s %s %s\n", st & 1 ? "engaged" : "disengaged", st & 2 ? "engaged" : "disengaged", w.mu ? "engaged" : "disengaged");
        // every length up to the depth, looking at the result at the end; the two optionals are interchangeable
        int len = 1 + choose(depth); w.throwing = len < 2;
        for (int d = 0; d < len; ++d) {
            int i = d ? choose(2) : 0, k = all ? choose(W20<T, CU>::OPS) : core[choose(16)];
            w.op(i, k);
        }
        w.check();
    }
    if (insts) fail("%d contained objects were not destroyed (or destroyed twice)", insts);
}

// ---------------------------------------------------------------- references
template<bool C> void refs(int depth)
{
    using T = typename std::conditional<C, const Tr, Tr>::type; using O = opt::optional<T&>;
    insts = 0; armed = false;
    {
        Tr obj[3] = {Tr(1), Tr(2), Tr(3)}; int val[3] = {1, 2, 3};
        O v[2]; int m[2] = {-1, -1};
        auto check = [&] {
            for (int i = 0; i < 3; ++i) if (obj[i].ok() != val[i]) fail("an operation on an optional reference changed the referred object %d", i);
            if (insts != 3) fail("an operation on an optional reference copied the object");
            for (int i = 0; i < 2; ++i) {
                const O& c = v[i]; bool e = m[i] >= 0;
                if (c.has_value() != e || bool(c) != e) fail("optional reference %d is %sengaged", i, c ? "" : "dis");
                bool thrown = false; try { if (&c.value() != &obj[m[i] < 0 ? 0 : m[i]]) fail("optional reference %d refers to another object", i); } catch (opt::bad_optional_access&) { thrown = true; }
                if (thrown == e) fail("value() of optional reference %d %s", i, e ? "threw" : "did not throw");
                if (e && (&*c != &obj[m[i]] || c.operator->() != &obj[m[i]])) fail("optional reference %d refers to another object", i);
                { Tr f(50), q = c.value_or(std::move(f)); if (q.id != (e ? val[m[i]] : 50) || (e && f.id != 50)) fail("value_or of optional reference %d is wrong or changed a fallback it did not use", i); Tr g(51), h = c.value_or(g); if (g.id != 51 || h.id != (e ? val[m[i]] : 51)) fail("value_or of optional reference %d is wrong or changed its fallback", i); }
                Tr r = c.value_or(Tr(50)); if (r.id != (e ? val[m[i]] : 50)) fail("value_or of optional reference %d is wrong", i);
            }
        };
        check();
        for (int d = 0; d < depth; ++d) {
            int i = choose(2), j = 1 - i, k = choose(14), x = choose(k == 2 || k == 4 || k == 5 || k == 9 || k == 13 ? 3 : 1);
            step(); note("op %d on %d, object %d\n", k, i, x);
            switch (k) {
            case 0: v[i].~O(); new (&v[i]) O(); m[i] = -1; break;
            case 1: v[i].~O(); new (&v[i]) O(opt::nullopt); m[i] = -1; break;
            case 2: v[i].~O(); new (&v[i]) O(obj[x]); m[i] = x; break;
            case 3: v[i].~O(); new (&v[i]) O(v[j]); m[i] = m[j]; break;
            case 4: v[i].~O(); new (&v[i]) O(opt::in_place, obj[x]); m[i] = x; break;
            case 5: v[i] = opt::make_optional(std::ref(static_cast<T&>(obj[x]))); m[i] = x; break;
            case 6: v[i] = opt::nullopt; m[i] = -1; break;
            case 7: v[i] = v[j]; m[i] = m[j]; break;
            case 8: v[i] = std::move(v[j]); m[i] = m[j]; v[j] = v[i]; break;
            case 9: v[i].emplace(obj[x]); m[i] = x; break;
            case 10: v[i].reset(); m[i] = -1; break;
            case 11: v[i].swap(v[j]); std::swap(m[i], m[j]); break;
            case 12: { using std::swap; swap(v[i], v[j]); std::swap(m[i], m[j]); break; }
            case 13: if (m[i] >= 0) { if constexpr (!C) { v[i]->id = 20 + x; val[m[i]] = 20 + x; } } else { const O& c = v[i]; v[j] = c; m[j] = m[i]; } break;
            }
            check();
        }
    }
    if (insts) fail("objects leaked");
}
void voids(int depth)
{
    using O = opt::optional<void>; O v[2];
    for (int d = 0; d < depth; ++d) {
        int i = choose(2), j = 1 - i, k = choose(11), x = 5; step(); note("op %d on void optional %d\n", k, i);
        switch (k) {
        case 0: v[i] = O(); break; case 1: v[i] = O(opt::nullopt); break; case 2: v[i] = opt::nullopt; break; case 3: v[i] = v[j]; break; case 4: { O t(v[j]); v[i] = std::move(t); break; }
        case 5: v[i] = 3; break; case 6: v[i].emplace(x); break; case 7: v[i].emplace(4); break; case 8: v[i].swap(v[j]); break; case 9: v[i].reset(); break; case 10: { using std::swap; swap(v[i], v[j]); break; }
        }
        for (O& o : v) {
            const O& c = o; bool t = false; try { c.value(); } catch (opt::bad_optional_access&) { t = true; }
            if (c || c.has_value() || !t || c.value_or(7) != 7) fail("a void optional is engaged");
            if (!(c == opt::nullopt) || c != opt::nullopt) fail("a void optional does not equal nullopt");
        }
    }
}
// a value type that overloads the address-of operator
struct Amp { int v; Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } };
template<typename O, typename T> void ampers(O& o, T& x, T& y, bool store)
{
    int m = -1;
    for (int d = 0; d < 3; ++d) {
        switch (choose(5)) {
        case 0: if constexpr (std::is_same<O, opt::optional<Amp>>::value) o = x; else o.emplace(x); m = 0; break;
        case 1: o.emplace(y); m = 1; break;
        case 2: o = opt::nullopt; m = -1; break;
        case 3: { O p(o); o = p; break; }
        case 4: { O p; p.swap(o); p.swap(o); break; }
        }
        step();
        if (o.has_value() != (m >= 0)) fail("an optional of a type that overloads & is %sengaged", o.has_value() ? "" : "dis");
        if (m < 0) continue;
        T* w = std::addressof(m ? y : x);
        if (o->v != m + 10 || (*o).v != m + 10 || o.value().v != m + 10) fail("an optional of a type that overloads & holds another value");
        if (store ? std::addressof(*o) == w || std::addressof(*o) != o.operator->() : std::addressof(*o) != w || o.operator->() != w || std::addressof(o.value()) != w) fail("an optional of a type that overloads & refers to another object");
    }
}
// const values: constructed, replaced and destroyed, never assigned
template<typename T> void consts()
{
    using C = const T; using O = opt::optional<C>; insts = 0; armed = false;
    {
        O a, b; int ma = -9, mb = -9; int n = 10;
        for (int d = 0; d < 3; ++d) {
            ++n; step();
            switch (choose(9)) {
            case 0: a.emplace(Ty<T>::make(n)); ma = n; break;
            case 1: a.reset(); ma = -9; break;
            case 2: { O t(b); if (t.has_value() != (mb != -9) || (t && Ty<T>::id(*t) != mb)) fail("a copy of an optional const value is wrong"); break; }
            case 3: b.emplace(Ty<T>::make(n)); mb = n; break;
            case 4: a = opt::nullopt; ma = -9; break;
            case 5: { C x = Ty<T>::make(n); O t(x); if (!t || Ty<T>::id(*t) != n) fail("an optional const value is wrong"); break; }
            case 6: { O t(opt::in_place, Ty<T>::make(n)); if (!t || Ty<T>::id(t.value()) != n) fail("an optional const value is wrong"); break; }
            case 7: { O t(std::move(b)); if (t.has_value() != (mb != -9) || (t && Ty<T>::id(*t) != mb)) fail("an optional const value moved from another is wrong"); break; }
            case 8: b.reset(); mb = -9; break;
            }
            const O &x = a, &y = b;
            if (x.has_value() != (ma != -9) || y.has_value() != (mb != -9) || (x && Ty<T>::id(*x) != ma) || (y && Ty<T>::id(y.value()) != mb)) fail("an optional const value is wrong");
            if (IsTr<T>::value && insts != (ma != -9) + (mb != -9)) fail("%d objects exist", insts);
        }
    }
    if (insts) fail("%d contained objects were not destroyed (or destroyed twice)", insts);
}
void amper()
{
    Amp x{10}, y{11};
    switch (choose(3)) { case 0: { opt::optional<Amp> o; ampers(o, x, y, true); break; } case 1: { opt::optional<Amp&> o; ampers(o, x, y, false); break; } case 2: { opt::optional<const Amp&> o; const Amp &cx = x, &cy = y; ampers(o, cx, cy, false); break; } }
}
void c20(bool th)
{
    switch (choose(15)) {
    case 12: if (choose(2)) hist<TrX<true, false>, U>(th ? 3 : 2); else hist<TrX<false, true>, U>(th ? 3 : 2); break;
    case 13: hist<TrX<true, true>, U>(th ? 3 : 2); break;
    case 14: if (choose(2)) consts<Tr>(); else consts<int>(); break;
    case 9: hist<En, int>(th ? 3 : 2); break;
    case 10: hist<Al, int>(th ? 3 : 2); break;
    case 11: amper(); break;
    case 0: switch (choose(3)) { case 0: hist<Tr, U>(th ? 4 : 3, false); break; case 1: hist<Tr, U>(th ? 3 : 2); break; case 2: hist<Tr, U>(3, true, 0); break; } break;
    case 1: hist<Mo, U>(th ? 3 : 2); break;
    case 2: if (choose(2)) hist<int, long>(th ? 5 : 3, false); else hist<int, long>(th ? 3 : 2); break;
    case 3: hist<std::string, int>(th ? 3 : 2); break;
    case 4: hist<int*, int>(th ? 3 : 2); break;
    case 5: hist<double, int>(th ? 3 : 2); break;
    case 6: hist<bool, int>(th ? 3 : 2); break;
    case 7: if (choose(2)) refs<false>(th ? 4 : 3); else refs<true>(th ? 4 : 3); break;
    case 8: voids(th ? 4 : 3); break;
    }
}

// ---------------------------------------------------------------- C21
template<typename A, typename B> void six(const A& a, const B& b, int ra, int rb)
{
    struct { bool got, want; const char* name; } r[] = {{bool(a == b), ra == rb, "=="}, {bool(a != b), ra != rb, "!="}, {bool(a < b), ra < rb, "<"}, {bool(a <= b), ra <= rb, "<="}, {bool(a > b), ra > rb, ">"}, {bool(a >= b), ra >= rb, ">="}};
    for (auto& x : r) { step(); if (x.got != x.want) fail("comparison %s of ranks %d and %d gave %d (0 is nothing)", x.name, ra, rb, x.got); }
}
struct Cl { int v; };                         // all six operators, deliberately independent of each other
bool operator==(const Cl& a, const Cl& b) { return a.v == b.v; } bool operator!=(const Cl& a, const Cl& b) { return a.v != b.v; } bool operator<(const Cl& a, const Cl& b) { return a.v < b.v; }
bool operator<=(const Cl& a, const Cl& b) { return a.v <= b.v; } bool operator>(const Cl& a, const Cl& b) { return a.v > b.v; } bool operator>=(const Cl& a, const Cl& b) { return a.v >= b.v; }
struct Two { int v; };                        // only == and <, enough to compare optionals with each other
bool operator==(const Two& a, const Two& b) { return a.v == b.v; } bool operator<(const Two& a, const Two& b) { return a.v < b.v; }
template<typename T> struct Mk;              // rank 1..n -> value
template<> struct Mk<int> { enum { n = 5 }; static int get(int r) { const int t[] = {0, -2147483647 - 1, -1, 0, 1, 2147483647}; return t[r]; } };
template<> struct Mk<unsigned char> { enum { n = 3 }; static unsigned char get(int r) { const unsigned char t[] = {0, 0, 1, 255}; return t[r]; } };
template<> struct Mk<double> { enum { n = 5 }; static double get(int r) { const double t[] = {0, -1.0 / 0.0, -1.5, 0, 1e-300, 1.0 / 0.0}; return t[r]; } };
template<> struct Mk<bool> { enum { n = 2 }; static bool get(int r) { return r == 2; } };
template<> struct Mk<std::string> { enum { n = 4 }; static std::string get(int r) { const char* t[] = {"", "", "a", "a string that is long enough for the heap", "b"}; return t[r]; } };
template<> struct Mk<Cl> { enum { n = 3 }; static Cl get(int r) { return Cl{r}; } };
template<> struct Mk<Two> { enum { n = 3 }; static Two get(int r) { return Two{r}; } };
template<> struct Mk<int*> { enum { n = 3 }; static int* get(int r) { return &cells[r]; } };
template<typename T> void values(bool plain)
{
    int ra = choose(Mk<T>::n + 1), rb = choose(Mk<T>::n + 1);
    note("ranks %d and %d\n", ra, rb);
    using O = opt::optional<T>; using OR = opt::optional<T&>; using OC = opt::optional<const T&>;
    T xa = Mk<T>::get(ra ? ra : 1), xb = Mk<T>::get(rb ? rb : 1);
    // a disengaged optional that held a value before, too
    bool stale = choose(2);
    O a, b; if (ra || stale) a = xa; if (!ra) a = opt::nullopt; if (rb || stale) b = xb; if (!rb) b.reset();
    six(a, b, ra, rb); six(a, a, ra, ra);
    six(a, opt::nullopt, ra, 0); six(opt::nullopt, b, 0, rb);
    OR ar, br; if (ra) ar.emplace(xa); if (rb) br.emplace(xb); OC ac, bc; if (ra) ac.emplace(xa); if (rb) bc.emplace(xb);
    six(ar, br, ra, rb); six(ac, bc, ra, rb); six(ar, opt::nullopt, ra, 0); six(opt::nullopt, br, 0, rb); six(ac, opt::nullopt, ra, 0); six(opt::nullopt, bc, 0, rb);
    T ya = xa; if (ra) { OR cr(ya); six(cr, ar, ra, ra); }        // equal values in different objects
    if constexpr (!std::is_same<T, Two>::value) if (plain) {
        if (rb) { six(a, xb, ra, rb); six(ar, xb, ra, rb); six(ac, xb, ra, rb); const T cb = xb; six(a, cb, ra, rb); six(ar, cb, ra, rb); }
        if (ra) { six(xa, b, ra, rb); six(xa, br, ra, rb); six(xa, bc, ra, rb); }
    }
}
void c21(bool)
{
    switch (choose(8)) { case 0: values<int>(true); break; case 1: values<double>(true); break; case 2: values<std::string>(true); break; case 3: values<Cl>(true); break; case 4: values<Two>(true); break; case 5: values<bool>(true); break; case 6: values<unsigned char>(true); break; case 7: values<int*>(true); break; }
}
const SuiteS suites[] = {{"C20", c20}, {"C21", c21}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, 2); }
