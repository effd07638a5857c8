// P04 worlds: two slots holding Rust vectors of primitives (FOREIGN=0) or of an exported class
// (FOREIGN=1), vectors read through a user accessor (ACCESS=1), Rust strings (STRINGS=1); each next
// to plain std::vector<long> / std::string models.
#include "explore.hpp"
#include <algorithm>
#include <iterator>
#include <optional>
#include <string>
#include <utility>
#ifdef USE_BOOST
#include <boost/optional.hpp>
#include <boost/variant.hpp>
#endif
#include OPS_HPP
using O = fg::Ops;
#if FOREIGN || ACCESS
#include EL_HPP
using El = fg::EL;
using ElRef = fg::ELREF;
#endif
extern "C" int64_t el_live();
extern "C" void vault_set(int32_t n, int32_t base);

struct OpD {
    std::string name;
    int k, i, n, c;
};
static long hash_of(const std::vector<long> &v)
{
    long h = 7;
    for (long x : v)
        h = (h * 31 + x) % 1000003;
    return h;
}
static std::string show(const std::vector<long> &v)
{
    std::string r = "[";
    for (long x : v)
        r += std::to_string(x) + " ";
    return r + "]";
}
static const int MAXLEN = 6;

#if !STRINGS
#if ACCESS
using Vec = fg::VEC;
#define MAKE_VEC(n, base, cap) O::mk(n, base, cap)
#else
using Vec = fg::VEC;
#define MAKE_VEC(n, base, cap) O::mk(n, base, cap)
#endif
#if FOREIGN || ACCESS
static long val(const ElRef &e) { return e.get(); }
#else
static long val(ELEM e) { return (long)e; }
#endif
enum { DEF, MK, DESTROY, MOVE_C, MOVE_A, SELF_MOVE, SWAP, CLEAR, READOPT, TAKE, IDV, REV, PUSH, REMOVE, XFER, WRITE, SLICE, SLICEMUT, RUSTSLICE, RUSTSLICEMUT };
static std::vector<OpD> make_ops()
{
    std::vector<OpD> r;
    auto two = [&](const char *n, int k, int x = 0, int c = 0) {
        for (int i = 0; i < 2; ++i)
            r.push_back({ std::string(n) + "(" + std::to_string(i) + (k == MK || k == REMOVE ? "," + std::to_string(x) + "," + std::to_string(c) : "") + ")", k, i, x, c });
    };
    auto one = [&](const char *n, int k) { r.push_back({ n, k, 0, 0, 0 }); };
    two("default", DEF);
    two("from_rust", MK, 0, 0);
    two("from_rust", MK, 0, 3);
    two("from_rust", MK, 1, 0);
    two("from_rust", MK, 2, 2);
    two("from_rust", MK, 4, 0);
    two("destroy", DESTROY);
    two("move_construct_other_from", MOVE_C);
    two("move_assign_other_from", MOVE_A);
    two("self_move_assign", SELF_MOVE);
    one("std_swap", SWAP);
#if !ACCESS
    two("clear", CLEAR);
    two("release_and_adopt", READOPT);
    two("pass_by_value", TAKE);
    two("through_rust", IDV);
    two("reversed_by_rust", REV);
    two("slice_to_rust", SLICE);
    two("mut_slice_to_rust", SLICEMUT);
    one("slice_of_rust_vec", RUSTSLICE);
    one("mut_slice_of_rust_vec", RUSTSLICEMUT);
#else
    one("slice_of_rust_vec", RUSTSLICE);
#endif
#if FOREIGN
    two("push", PUSH);
    two("remove", REMOVE, 0);
    two("remove", REMOVE, 1);
    two("remove", REMOVE, 9);
    two("transfer_first_to_other", XFER);
#elif !ACCESS
    two("write_through_iterator", WRITE);
#endif
    return r;
}
static std::vector<OpD> OPS = make_ops();

// iterators, element access and sizes of any of the containers against the model
template <class C> static void check_container(const char *what, C &c, const std::vector<long> &m)
{
    std::string w = what;
    const size_t n = m.size();
    MC_CHECK("size", c.size() == n, w + ": size() is " + std::to_string(c.size()) + ", expected " + std::to_string(n));
    MC_CHECK("empty", c.empty() == (n == 0), w + ": empty() is wrong");
    if (c.size() != n)
        return;
    const C &cc = c;
    for (size_t i = 0; i < n; ++i)
        MC_CHECK("index", val(cc[i]) == m[i], w + "[" + std::to_string(i) + "] is " + std::to_string(val(cc[i])) + ", expected " + show(m));
#if !ACCESS
    {
        std::vector<long> got;
        for (auto &&e : c)
            got.push_back(val(e));
        MC_CHECK("iterate", got == m, w + ": iteration gives " + show(got) + ", expected " + show(m));
        got.clear();
        for (auto &&e : cc)
            got.push_back(val(e));
        MC_CHECK("iterate_const", got == m, w + ": const iteration gives " + show(got) + ", expected " + show(m));
        got.clear();
        for (auto it = cc.end(); it != cc.begin();) {
            --it;
            got.insert(got.begin(), val(*it));
        }
        MC_CHECK("iterate_back", got == m, w + ": backward iteration gives " + show(got) + ", expected " + show(m));
    }
    MC_CHECK("ends", (c.begin() == c.end()) == (n == 0), w + ": begin()==end() does not tell emptiness");
    const auto b = cc.begin(), e = cc.end();
    MC_CHECK("distance", e - b == (ptrdiff_t)n && b - e == -(ptrdiff_t)n, w + ": end-begin " + std::to_string(e - b) + ", begin-end " + std::to_string(b - e));
    for (size_t i = 0; i <= n; ++i)
        for (size_t j = 0; j <= n; ++j) {
            auto x = b + i, y = b + j;
            const ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i;
            MC_CHECK("it_diff", y - x == d, w + ": iterator difference " + std::to_string(y - x) + " instead of " + std::to_string(d));
            MC_CHECK("it_cmp", (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), w + ": iterator comparison");
            MC_CHECK("it_plus", x + d == y && y - d == x, w + ": iterator + and -");
            auto z = x;
            z += d;
            MC_CHECK("it_pluseq", z == y, w + ": iterator +=");
            z -= d;
            MC_CHECK("it_minuseq", z == x, w + ": iterator -=");
            if (j < n) {
                MC_CHECK("it_deref", val(*y) == m[j], w + ": *(begin+j)");
                MC_CHECK("it_index", val(x[d]) == m[j], w + ": iterator[]");
            }
        }
    if (n > 0) {
        long mx = *std::max_element(m.begin(), m.end());
        auto p = std::find_if(b, e, [&](auto &&q) { return val(q) == mx; });
        MC_CHECK("it_algo", p != e && val(*p) == mx, w + ": std::find_if");
    }
#endif
}

struct World {
    struct M {
        bool has = false;
        std::vector<long> v;
    } m[2];
    std::optional<Vec> s[2];
    bool dry = false;
    long next = 0;
    size_t base = 0;
    static int n_ops() { return (int)OPS.size(); }
    static std::string op_name(int o) { return OPS[o].name; }
    void model_reset()
    {
        m[0] = M();
        m[1] = M();
        next = 0;
    }
    void reset()
    {
        dry = false;
        s[0].reset();
        s[1].reset();
        vault_set(0, 0);
        model_reset();
        trk_reset();
        base = mc::heap_bytes();
    }
    void model_replay(const std::vector<int> &q)
    {
        dry = true;
        model_reset();
        for (int o : q)
            apply(o);
    }
    std::string state()
    {
        std::string r;
        for (auto &x : m)
            r += x.has ? std::to_string(x.v.size()) + "," : "-,";
        return r;
    }
    bool enabled(int o)
    {
        const OpD &d = OPS[o];
        M &a = m[d.i], &b = m[1 - d.i];
        switch (d.k) {
        case DEF: case MK: return !a.has;
        case MOVE_C: return a.has && !b.has;
        case MOVE_A: return a.has && b.has;
        case SWAP: return m[0].has && m[1].has;
        case PUSH: return a.has && a.v.size() < MAXLEN;
        case REMOVE: return a.has && !a.v.empty() && (d.n == 0 || a.v.size() > 1) && (d.n != 1 || a.v.size() > 2);
        case XFER: return a.has && b.has && !a.v.empty() && b.v.size() < MAXLEN;
        case WRITE: return a.has && !a.v.empty();
        case RUSTSLICE: case RUSTSLICEMUT: return true;
        default: return a.has;
        }
    }
    long fresh() { return 10 + (next++ % 80); }
    std::vector<long> seq(long first, int n)
    {
        std::vector<long> r;
        for (int i = 0; i < n; ++i)
            r.push_back(first + i);
        next += n;
        return r;
    }
    void eq(const char *what, long got, long want)
    {
        MC_CHECK("value", got == want, std::string(what) + ": got " + std::to_string(got) + ", expected " + std::to_string(want));
    }
    void apply(int o)
    {
        const OpD &d = OPS[o];
        const int i = d.i, j = 1 - d.i;
        M &a = m[i], &b = m[j];
        const bool I = !dry;
        switch (d.k) {
        case DEF:
            if (I)
                s[i].emplace();
            a.has = true;
            break;
        case MK: {
            long first = 10 + (next % 80);
            a.v = seq(first, d.n);
            if (I)
                s[i].emplace(MAKE_VEC(d.n, (int)first, d.c));
            a.has = true;
            break;
        }
        case DESTROY:
            if (I)
                s[i].reset();
            a = M();
            break;
        case MOVE_C:
            if (I)
                s[j].emplace(std::move(*s[i]));
            b = a;
            a.v.clear();
            break;
        case MOVE_A:
            if (I)
                *s[j] = std::move(*s[i]);
            b = a;
            a.v.clear();
            break;
        case SELF_MOVE:
            // valid but unspecified: unchanged or empty
            if (I) {
                Vec *self = &*s[i];
                *s[i] = std::move(*self);
                if (s[i]->size() != 0)
                    check_container("self moved", *s[i], a.v);
                else if (!a.v.empty()) { // go on with a defined value
                    s[i].emplace();
                }
                s[i].reset();
                s[i].emplace();
            }
            a.v.clear();
            break;
        case SWAP:
            if (I)
                std::swap(*s[0], *s[1]);
            std::swap(m[0].v, m[1].v);
            break;
#if !ACCESS
        case CLEAR:
            if (I)
                s[i]->clear();
            a.v.clear();
            break;
        case READOPT:
            if (I) {
                auto c = s[i]->release();
                check_container("released", *s[i], {});
                *s[i] = Vec(c);
            }
            break;
        case TAKE:
            if (I) {
                eq("hash computed by Rust", O::take(std::move(*s[i])), hash_of(a.v));
            }
            a.v.clear();
            break;
        case IDV:
            if (I)
                *s[i] = O::idv(std::move(*s[i]));
            break;
        case REV:
            if (I)
                *s[i] = O::rev(std::move(*s[i]));
            std::reverse(a.v.begin(), a.v.end());
            break;
#endif
#if FOREIGN
        case PUSH: {
            long v = fresh();
            if (I)
                s[i]->push(El((int)v));
            a.v.push_back(v);
            break;
        }
        case REMOVE: {
            size_t k = d.n == 9 ? a.v.size() - 1 : d.n;
            if (I) {
                El e = s[i]->remove(k);
                eq("removed element", e.get(), a.v[k]);
            }
            a.v.erase(a.v.begin() + k);
            break;
        }
        case XFER:
            if (I)
                s[j]->push(s[i]->remove(0));
            b.v.push_back(a.v[0]);
            a.v.erase(a.v.begin());
            break;
        case SLICE:
            if (I) {
                auto sl = s[i]->as_slice();
                check_container("as_slice()", sl, a.v);
                auto sl2 = std::move(sl);
                check_container("moved-from slice", sl, {});
                check_container("moved slice", sl2, a.v);
                eq("hash of slice", O::sl(std::move(sl2)), hash_of(a.v));
                eq("hash of moved-from slice", O::sl(std::move(sl)), hash_of({}));
                sl = s[i]->as_slice();
                check_container("assigned slice", sl, a.v);
                eq("hash of assigned slice", O::sl(std::move(sl)), hash_of(a.v));
                fg::RustForeignSliceConst<ElRef> def;
                check_container("default slice", def, {});
                eq("hash of default slice", O::sl(std::move(def)), hash_of({}));
            }
            break;
        case SLICEMUT:
            if (I) {
                auto sl = s[i]->as_slice_mut();
                check_container("as_slice_mut()", sl, a.v);
                eq("elements changed", O::slm(s[i]->as_slice_mut(), 1), (long)a.v.size());
                fg::RustForeignSliceMut<ElRef> def;
                eq("elements changed in default slice", O::slm(std::move(def), 1), 0);
            }
            for (auto &x : a.v)
                x = x + 1;
            break;
        case RUSTSLICE:
            for (int n : { 0, 1, 3 })
                if (I) {
                    vault_set(n, 50);
                    std::vector<long> e;
                    for (int q = 0; q < n; ++q)
                        e.push_back(50 + q);
                    auto sl = O::slof();
                    check_container("slice of Rust", sl, e);
                    eq("hash of returned slice", O::sl(O::slof()), hash_of(e));
                    auto sl2 = std::move(sl);
                    check_container("moved slice of Rust", sl2, e);
                    check_container("moved-from slice of Rust", sl, {});
                    vault_set(0, 0);
                }
            break;
        case RUSTSLICEMUT:
            for (int n : { 0, 1, 3 })
                if (I) {
                    vault_set(n, 50);
                    std::vector<long> e;
                    for (int q = 0; q < n; ++q)
                        e.push_back(50 + q);
                    auto sl = O::slofm();
                    check_container("mutable slice of Rust", sl, e);
                    eq("elements changed", O::slm(std::move(sl), 1), n);
                    for (auto &x : e)
                        ++x;
                    auto sl2 = O::slofm();
                    check_container("changed slice of Rust", sl2, e);
                    vault_set(0, 0);
                }
            break;
#elif !ACCESS
        case WRITE: {
            size_t k = next % a.v.size();
            long v = fresh();
            if (I)
                *(s[i]->begin() + k) = (ELEM)v;
            a.v[k] = v;
            break;
        }
        case SLICE:
            if (I) {
                fg::RustSlice<const ELEM> sl{ s[i]->begin(), s[i]->size() };
                check_container("slice", sl, a.v);
                auto sl2 = std::move(sl);
                check_container("moved-from slice", sl, {});
                check_container("moved slice", sl2, a.v);
                eq("hash of slice", O::sl(std::move(sl2)), hash_of(a.v));
                eq("hash of moved-from slice", O::sl(std::move(sl)), hash_of({}));
                if (a.v.size() > 1)
                    eq("hash of subslice", O::sl(fg::RustSlice<const ELEM>{ s[i]->begin() + 1, s[i]->size() - 1 }), hash_of(std::vector<long>(a.v.begin() + 1, a.v.end())));
            }
            break;
        case SLICEMUT:
            if (I) {
                fg::RustSlice<ELEM> sl{ s[i]->begin(), s[i]->size() };
                check_container("mut slice", sl, a.v);
                if (!a.v.empty()) {
                    sl[0] = sl[0];
                    *(sl.begin()) = sl[0];
                }
                eq("elements changed", O::slm(std::move(sl), 1), (long)a.v.size());
                eq("elements changed in empty slice", O::slm(fg::RustSlice<ELEM>{ nullptr, 0 }, 1), 0);
            }
            for (auto &x : a.v)
                x = x + 1;
            break;
        case RUSTSLICE:
            for (int n : { 0, 1, 3 })
                if (I) {
                    vault_set(n, 50);
                    std::vector<long> e;
                    for (int q = 0; q < n; ++q)
                        e.push_back(50 + q);
                    auto sl = O::slof();
                    check_container("slice of Rust", sl, e);
                    eq("hash of returned slice", O::sl(O::slof()), hash_of(e));
                    auto sl2 = std::move(sl);
                    check_container("moved slice of Rust", sl2, e);
                    check_container("moved-from slice of Rust", sl, {});
                    sl = std::move(sl2);
                    check_container("move-assigned slice of Rust", sl, e);
                    vault_set(0, 0);
                }
            break;
        case RUSTSLICEMUT:
            for (int n : { 0, 1, 3 })
                if (I) {
                    vault_set(n, 50);
                    std::vector<long> e;
                    for (int q = 0; q < n; ++q)
                        e.push_back(50 + q);
                    auto sl = O::slofm();
                    check_container("mutable slice of Rust", sl, e);
                    for (int q = 0; q < n; ++q) {
                        sl[q] = (ELEM)(70 + q);
                        e[q] = 70 + q;
                    }
                    check_container("written slice of Rust", sl, e);
                    eq("elements changed", O::slm(std::move(sl), 1), n);
                    for (auto &x : e)
                        ++x;
                    auto sl2 = O::slof();
                    check_container("changed slice of Rust", sl2, e);
                    vault_set(0, 0);
                }
            break;
#else // ACCESS
        case RUSTSLICE:
            for (int n : { 0, 1, 3 })
                if (I) {
                    vault_set(n, 50);
                    std::vector<long> e;
                    for (int q = 0; q < n; ++q)
                        e.push_back(50 + q);
                    auto sl = O::slof();
                    check_container("slice of Rust", sl, e);
                    auto sl2 = std::move(sl);
                    check_container("moved slice of Rust", sl2, e);
                    check_container("moved-from slice of Rust", sl, {});
                    sl = std::move(sl2);
                    check_container("move-assigned slice of Rust", sl, e);
                    decltype(sl) def;
                    check_container("default slice", def, {});
                    vault_set(0, 0);
                }
            break;
#endif
        }
        if (I)
            verify();
    }
    void verify()
    {
        long live = 0;
        for (int i = 0; i < 2; ++i) {
            MC_CHECK("engine", s[i].has_value() == m[i].has, "slot presence");
            if (!s[i])
                continue;
            live += (long)m[i].v.size();
            check_container(i ? "slot 1" : "slot 0", *s[i], m[i].v);
        }
        MC_CHECK("live", el_live() < 0 || el_live() == live, "Rust objects alive: " + std::to_string(el_live()) + ", expected " + std::to_string(live));
        char buf[200];
        if (trk_errors(buf, sizeof buf))
            mc::fail("use", buf);
    }
    void finish()
    {
        s[0].reset();
        s[1].reset();
        MC_CHECK("live", el_live() <= 0, "objects alive at the end: " + std::to_string(el_live()));
        char buf[200];
        if (trk_errors(buf, sizeof buf))
            mc::fail("use", buf);
        model_reset();
        size_t now = mc::heap_bytes();
        if (!mc::g_failed)
            MC_CHECK("heap", now == base, "heap not balanced: " + std::to_string((long)now - (long)base) + " bytes");
    }
};
#else // STRINGS
using S = fg::RustString;
#ifdef USE_BOOST
using View = boost::string_view;
static View view(const S &s) { return s.to_boost_string_view(); }
#else
using View = std::string_view;
static View view(const S &s) { return s.to_string_view(); }
#endif
static std::vector<std::string> MENU;
enum { DEF, MK, DESTROY, COPY_C, COPY_A, SELF_COPY, MOVE_C, MOVE_A, SELF_MOVE, SWAP, ECHO, REFL, CAT, LIT };
static std::vector<OpD> make_ops()
{
    MENU = { "", "a", "a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", std::string("x\0y", 3), std::string(100, 'q'), "cap", "" };
    std::vector<OpD> r;
    auto two = [&](const char *n, int k, int x = 0) {
        for (int i = 0; i < 2; ++i)
            r.push_back({ std::string(n) + "(" + std::to_string(i) + (k == MK ? "," + std::to_string(x) : "") + ")", k, i, x, 0 });
    };
    two("default", DEF);
    for (int k = 0; k < 7; ++k)
        two("from_rust", MK, k);
    two("destroy", DESTROY);
    two("copy_construct_other_from", COPY_C);
    two("copy_assign_other_from", COPY_A);
    two("self_copy_assign", SELF_COPY);
    two("move_construct_other_from", MOVE_C);
    two("move_assign_other_from", MOVE_A);
    two("self_move_assign", SELF_MOVE);
    r.push_back({ "std_swap", SWAP, 0, 0, 0 });
    two("echo", ECHO);
    two("reflect_str", REFL);
    two("concat_with_other", CAT);
    two("assign_from_literal", LIT);
    return r;
}
static std::vector<OpD> OPS = make_ops();
struct World {
    std::optional<std::string> m[2];
    std::optional<S> s[2];
    bool dry = false;
    size_t base = 0;
    static int n_ops() { return (int)OPS.size(); }
    static std::string op_name(int o) { return OPS[o].name; }
    void reset()
    {
        dry = false;
        for (int i = 0; i < 2; ++i) {
            s[i].reset();
            m[i].reset();
        }
        trk_reset();
        base = mc::heap_bytes();
    }
    void model_replay(const std::vector<int> &q)
    {
        dry = true;
        m[0].reset();
        m[1].reset();
        for (int o : q)
            apply(o);
    }
    std::string state() { return (m[0] ? "<" + *m[0] + ">" : "-") + (m[1] ? "<" + *m[1] + ">" : "-"); }
    bool enabled(int o)
    {
        const OpD &d = OPS[o];
        auto &a = m[d.i], &b = m[1 - d.i];
        switch (d.k) {
        case DEF: case MK: return !a;
        case COPY_C: case MOVE_C: return a && !b;
        case COPY_A: case MOVE_A: case SWAP: return a && b;
        case CAT: return a && b && a->size() + b->size() < 220;
        default: return a.has_value();
        }
    }
    void apply(int o)
    {
        const OpD &d = OPS[o];
        const int i = d.i, j = 1 - i;
        auto &a = m[i], &b = m[j];
        const bool I = !dry;
        switch (d.k) {
        case DEF: if (I) s[i].emplace(); a = ""; break;
        case MK: if (I) s[i].emplace(O::smk(d.n)); a = MENU[d.n]; break;
        case DESTROY: if (I) s[i].reset(); a.reset(); break;
        case COPY_C: if (I) s[j].emplace(static_cast<const S &>(*s[i])); b = a; break;
        case COPY_A: if (I) *s[j] = *s[i]; b = a; break;
        case SELF_COPY: if (I) { S *self = &*s[i]; *s[i] = *self; } break;
        case MOVE_C: if (I) s[j].emplace(std::move(*s[i])); b = a; a = ""; break;
        case MOVE_A: if (I) *s[j] = std::move(*s[i]); b = a; a = ""; break;
        case SELF_MOVE:
            if (I) {
                S *self = &*s[i];
                *s[i] = std::move(*self);
                MC_CHECK("self_move", s[i]->empty() || s[i]->to_std_string() == *a, "neither unchanged nor empty");
                s[i].reset();
                s[i].emplace();
            }
            a = "";
            break;
        case SWAP: if (I) std::swap(*s[0], *s[1]); std::swap(m[0], m[1]); break;
        case ECHO: if (I) *s[i] = O::secho(view(*s[i])); break;
        case REFL:
            if (I) {
                auto v = O::srefl(view(*s[i]));
                MC_CHECK("view", std::string(v.data() ? v.data() : "", v.size()) == *a, "returned &str differs");
                std::string st = s[i]->to_std_string();
                MC_CHECK("std", O::slen(View(st.data(), st.size())) == st.size(), "length of std::string in Rust");
            }
            break;
        case CAT: if (I) *s[i] = O::scat(view(*s[i]), view(*s[j])); a = *a + *b; break;
        case LIT: if (I) *s[i] = O::secho("lit"); a = "lit"; break;
        }
        if (I)
            verify();
    }
    void verify()
    {
        for (int i = 0; i < 2; ++i) {
            if (!s[i])
                continue;
            const S &x = *s[i];
            const std::string &w = *m[i];
            MC_CHECK("size", x.size() == w.size(), "slot " + std::to_string(i) + ": size " + std::to_string(x.size()) + ", expected " + std::to_string(w.size()));
            MC_CHECK("empty", x.empty() == w.empty(), "empty()");
            if (x.size() != w.size())
                continue;
            MC_CHECK("content", x.to_std_string() == w, "slot " + std::to_string(i) + ": \"" + x.to_std_string() + "\", expected \"" + w + "\"");
            auto v = view(x);
            MC_CHECK("view", std::string(v.data() ? v.data() : "", v.size()) == w, "view differs");
        }
    }
    void finish()
    {
        s[0].reset();
        s[1].reset();
        m[0].reset();
        m[1].reset();
        size_t now = mc::heap_bytes();
        if (!mc::g_failed)
            MC_CHECK("heap", now == base, "heap not balanced: " + std::to_string((long)now - (long)base) + " bytes");
    }
};
#endif

int main(int c, char **v)
{
    mc::install();
    if (c < 5)
        return 2;
    mc::g_seq.reserve(64);
    mc::explore<World>(WORLD_NAME, atoi(v[1]), atoi(v[2]), atoi(v[3]), atoi(v[4]));
    return 0;
}
