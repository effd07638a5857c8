// P03 world: two C++ wrapper slots, one released raw pointer, one borrowed view, one Rust vector of
// the class and a Rust-side vault.  Compiled once per storage flavour (the macros below come from
// p03.py).  The model knows which object sits where; live = referenced from somewhere.
#include "explore.hpp"
#include <algorithm>
#include <functional>
#include <optional>
#include <utility>
#include <variant>
#ifdef USE_BOOST
#include <boost/optional.hpp>
#include <boost/variant.hpp>
#endif
#include FLAVOUR_HPP
#include OPS_HPP
extern "C" void vault_clear();

using W = fg::FLAVOUR;
using O = fg::OPSC;
#ifdef USE_BOOST
template <class T> using Opt = boost::optional<T>;
template <class T> const T *get_if(const boost::variant<W, int32_t> &v) { return boost::get<T>(&v); }
#else
template <class T> using Opt = std::optional<T>;
#endif
#if HAS_VIEW
using V = fg::VIEWC;
#endif

enum { EMPTY = -2, NUL = -1 };

struct Model {
    int slot[2] = {EMPTY, EMPTY};
    int raw = NUL;
    int view = NUL;      // id the view denotes; NUL: no view
    int view_at = -1;    // place the viewed object lives in: 0,1 slots, 2 raw, 3 vault, 4 vector
    bool view_stale = false;
    std::vector<int> vault, vec;
    bool has_vec = false;
    int next = 0;
    std::map<int, int> val;
    bool lives(int id) const
    {
        if (slot[0] == id || slot[1] == id || raw == id)
            return true;
        for (int x : vault)
            if (x == id)
                return true;
        for (int x : vec)
            if (x == id)
                return true;
        return false;
    }
    int n_live() const
    {
        std::set<int> s;
        for (int x : {slot[0], slot[1], raw})
            if (x >= 0)
                s.insert(x);
        s.insert(vault.begin(), vault.end());
        s.insert(vec.begin(), vec.end());
        return (int)s.size();
    }
    int n_refs() const { return (slot[0] >= 0) + (slot[1] >= 0) + (raw >= 0) + (int)vault.size() + (int)vec.size(); }
};

enum Kind {
    NEW, DESTROY, MOVE_C, MOVE_A, COPY_C, COPY_A, SELF_COPY_A, SWAP, RELEASE, ADOPT, ADOPT_ASSIGN, TAKE, TAKE_COPY, MAKE, MAKE_ASSIGN, PUT, GRAB,
    OPT_SOME, OPT_NONE, OPT_NULL, RES_OK, RES_ERR, RESE, RESU, RESIN_OK, RESIN_ERR, TUP, TUPIN, RF, RM, OF, OF_NULL, OM, CREF, RSP, SETM,
    VIEW_OF, VIEW_PICK, VIEW_PEEK, VIEW_USE, VIEW_MOVE, VIEW_DROP,
    VEC_DEF, VEC_OUT, VEC_PUSH, VEC_REM0, VEC_REML, VEC_IDX, VEC_VIEW, VEC_CROSS, VEC_IN, VEC_CLEAR, VEC_DROP, VEC_MOVE, VEC_SLICE, VS, NKINDS
};
struct OpD {
    std::string name;
    Kind k;
    int i;
};
inline std::vector<OpD> make_ops()
{
    std::vector<OpD> r;
    auto two = [&](const char *n, Kind k) {
        r.push_back({std::string(n) + "(0)", k, 0});
        r.push_back({std::string(n) + "(1)", k, 1});
    };
    auto one = [&](const char *n, Kind k) { r.push_back({n, k, 0}); };
    two("construct", NEW);
    two("destroy", DESTROY);
    two("move_construct_other_from", MOVE_C);
    two("move_assign_other_from", MOVE_A);
#if COPYABLE
    two("copy_construct_other_from", COPY_C);
    two("copy_assign_other_from", COPY_A);
    two("self_copy_assign", SELF_COPY_A);
    two("pass_copy_by_value", TAKE_COPY);
#endif
    one("std_swap", SWAP);
    two("release", RELEASE);
    two("adopt", ADOPT);
    two("adopt_by_assignment", ADOPT_ASSIGN);
#if HAS_take
    two("pass_by_value", TAKE);
#endif
#if HAS_make
    two("return_by_value", MAKE);
    two("assign_returned", MAKE_ASSIGN);
#endif
#if HAS_put
    two("put_into_rust", PUT);
#endif
#if HAS_grab
    two("take_from_rust_option", GRAB);
#endif
#if HAS_opt
    two("through_option_some", OPT_SOME);
    two("through_option_none", OPT_NONE);
#endif
#if HAS_res
    two("through_result_ok", RES_OK);
    two("through_result_err", RES_ERR);
#endif
#if HAS_rese
    two("return_as_error", RESE);
#endif
#if HAS_resu
    two("return_as_error_of_unit", RESU);
#endif
#if HAS_resin
    two("pass_in_result_ok", RESIN_OK);
    two("pass_in_result_err", RESIN_ERR);
#endif
#if HAS_tup
    one("through_tuple_swapped", TUP);
#endif
#if HAS_tupin
    two("pass_in_tuple", TUPIN);
#endif
#if HAS_rf
    two("borrow", RF);
#endif
#if HAS_rm
    two("borrow_mut", RM);
#endif
#if HAS_of
    two("borrow_option", OF);
    one("borrow_option_null", OF_NULL);
#endif
#if HAS_om
    two("borrow_mut_option", OM);
#endif
#if HAS_rsp
    two("borrow_storage", RSP);
#endif
    two("method_mut", SETM);
#if HAS_VIEW
    two("cref_method", CREF);
    two("view_of", VIEW_OF);
#if HAS_pick
    two("view_returned", VIEW_PICK);
#endif
#if HAS_peek
    one("view_into_rust", VIEW_PEEK);
#endif
    one("use_view", VIEW_USE);
    one("move_view", VIEW_MOVE);
    one("drop_view", VIEW_DROP);
#endif
#if HAS_vid
    one("vec_default", VEC_DEF);
    one("vec_from_rust", VEC_OUT);
    two("vec_push", VEC_PUSH);
    two("vec_remove_first", VEC_REM0);
    two("vec_remove_last", VEC_REML);
#if HAS_vidx
    one("vec_read_all", VEC_IDX);
    one("vec_view_first", VEC_VIEW);
#if HAS_vsi
    one("vec_slice_to_rust", VEC_SLICE);
#endif
#if HAS_vs
    one("slice_of_rust", VS);
#endif
#endif
    one("vec_through_rust", VEC_CROSS);
    one("vec_pass_by_value", VEC_IN);
    one("vec_clear", VEC_CLEAR);
    one("vec_drop", VEC_DROP);
    one("vec_move", VEC_MOVE);
#endif
    return r;
}
inline std::vector<OpD> OPS = make_ops();

#ifndef MAXREF
#define MAXREF 4
#endif

struct World {
    Model m;
    bool dry = false;
    std::optional<W> s[2];
    W::CForeignType *raw = nullptr;
#if HAS_VIEW
    std::optional<V> view;
#endif
#if HAS_vid
    std::optional<fg::VECC> vec;
#endif
    size_t base = 0;

    static int n_ops() { return (int)OPS.size(); }
    static std::string op_name(int o) { return OPS[o].name; }
    void clear_impl()
    {
#if HAS_VIEW
        view.reset();
#endif
        s[0].reset();
        s[1].reset();
        if (raw) {
            W w(raw);
            raw = nullptr;
        }
#if HAS_vid
        vec.reset();
#endif
        vault_clear();
    }
    void reset()
    {
        dry = false;
        clear_impl();
        m = Model();
        trk_reset();
        base = mc::heap_bytes();
    }
    void model_replay(const std::vector<int> &seq)
    {
        dry = true;
        m = Model();
        for (int o : seq)
            apply(o);
    }
    bool enabled(int o)
    {
        const OpD &d = OPS[o];
        int i = d.i, a = m.slot[i], b = m.slot[1 - i];
        bool room = m.n_refs() < MAXREF;
        switch (d.k) {
        case NEW: case MAKE: return a == EMPTY && room;
        case MAKE_ASSIGN: return a != EMPTY && room;
        case DESTROY: return a != EMPTY;
        case MOVE_C: return a != EMPTY && b == EMPTY;
        case MOVE_A: return a != EMPTY && b != EMPTY;
        case COPY_C: return a != EMPTY && b == EMPTY && (a < 0 || room);
        case COPY_A: return a != EMPTY && b != EMPTY && (a < 0 || room || b >= 0);
        case SELF_COPY_A: return a != EMPTY;
        case TAKE_COPY: return a >= 0;
        case SWAP: return m.slot[0] != EMPTY && m.slot[1] != EMPTY;
        case RELEASE: return a != EMPTY && m.raw == NUL;
        case ADOPT: return a == EMPTY && m.raw >= 0;
        case ADOPT_ASSIGN: return a != EMPTY && m.raw >= 0;
        case TAKE: case RES_OK: case RES_ERR: case RESE: case RESU: case RESIN_OK: case RESIN_ERR: case TUPIN: case OPT_SOME:
        case RF: case RM: case OF: case OM: case RSP: case SETM: case CREF:
            return a >= 0;
        case PUT: return a >= 0;
        case OPT_NONE: return a != EMPTY;
        case GRAB: return a == EMPTY;
        case TUP: return m.slot[0] >= 0 && m.slot[1] >= 0;
        case OF_NULL: return true;
        case VIEW_OF: case VIEW_PICK: return a >= 0;
        case VIEW_PEEK: return !m.vault.empty();
        case VIEW_USE: return m.view >= 0 && !m.view_stale;
        case VIEW_MOVE: return m.view >= 0 && !m.view_stale;
        case VIEW_DROP: return m.view >= 0;
        case VEC_DEF: case VEC_OUT: return !m.has_vec;
        case VEC_PUSH: return m.has_vec && a >= 0;
        case VEC_REM0: case VEC_REML: return m.has_vec && !m.vec.empty() && a == EMPTY;
        case VEC_VIEW: return !m.vec.empty();
        case VEC_IDX: case VEC_CROSS: case VEC_IN: case VEC_CLEAR: case VEC_DROP: case VEC_MOVE: case VEC_SLICE: return m.has_vec;
        case VS: return true;
        default: return false;
        }
    }
    int birth(int v)
    {
        int id = m.next++;
        m.val[id] = v;
        return id;
    }
    int fresh_val() { return 10 + m.next; }
    void stale(int place)
    {
        if (m.view >= 0 && m.view_at == place)
            m.view_stale = true;
    }
    // a copy of object id: a new object, or the same one for shared storage
    int copied(int id)
    {
        if (id < 0)
            return NUL;
        return SHARED ? id : birth(m.val[id]);
    }
    void expect(const char *what, long got, long want)
    {
        if (got != want)
            mc::fail("value", std::string(what) + ": got " + std::to_string(got) + ", expected " + std::to_string(want));
    }
    W mv(int i) { return W(std::move(*s[i])); }

    void apply(int o)
    {
        const OpD &d = OPS[o];
        const int i = d.i, j = 1 - i;
        int &a = m.slot[i];
        int &b = m.slot[j];
        const int va = a >= 0 ? m.val[a] : 0;
        const bool I = !dry;
        switch (d.k) {
        case NEW: {
            int v = fresh_val();
            if (I)
                s[i].emplace(v);
            a = birth(v);
            break;
        }
        case DESTROY:
            stale(i);
            if (I)
                s[i].reset();
            a = EMPTY;
            break;
        case MOVE_C:
            stale(i);
            if (I)
                s[j].emplace(std::move(*s[i]));
            b = a;
            a = NUL;
            break;
        case MOVE_A:
            stale(i);
            stale(j);
            if (I)
                *s[j] = std::move(*s[i]);
            b = a;
            a = NUL;
            break;
#if COPYABLE
        case COPY_C: {
            if (I)
                s[j].emplace(static_cast<const W &>(*s[i]));
            b = copied(a);
            break;
        }
        case COPY_A: {
            stale(j);
            if (I)
                *s[j] = static_cast<const W &>(*s[i]);
            b = copied(a);
            break;
        }
        case SELF_COPY_A:
            if (I) {
                const W &x = *s[i];
                *s[i] = x;
            }
            break;
        case TAKE_COPY:
            if (I)
                expect("value received", O::TAKE_(*s[i]), va);
            copied(a);
            break;
#endif
        case SWAP:
            stale(0);
            stale(1);
            if (I)
                std::swap(*s[0], *s[1]);
            std::swap(m.slot[0], m.slot[1]);
            break;
        case RELEASE:
            stale(i);
            if (I) {
                raw = s[i]->release();
                if ((raw == nullptr) != (a < 0))
                    mc::fail("release", "released pointer does not match the state");
            }
            m.raw = a < 0 ? NUL : a;
            a = NUL;
            break;
        case ADOPT:
            stale(2);
            if (I) {
                s[i].emplace(raw);
                raw = nullptr;
            }
            a = m.raw;
            m.raw = NUL;
            break;
        case ADOPT_ASSIGN:
            stale(2);
            stale(i);
            if (I) {
                *s[i] = W(raw);
                raw = nullptr;
            }
            a = m.raw;
            m.raw = NUL;
            break;
#if HAS_take
        case TAKE:
            stale(i);
            if (I)
                expect("value received", O::TAKE_(mv(i)), va);
            a = NUL;
            break;
#endif
#if HAS_make
        case MAKE: {
            int v = fresh_val();
            if (I)
                s[i].emplace(O::MAKE_(v));
            a = birth(v);
            break;
        }
        case MAKE_ASSIGN: {
            stale(i);
            int v = fresh_val();
            if (I)
                *s[i] = O::MAKE_(v);
            a = birth(v);
            break;
        }
#endif
#if HAS_put
        case PUT:
            stale(i);
            stale(3);
            if (I)
                O::PUT_(mv(i));
            m.vault.push_back(a);
            a = NUL;
            break;
#endif
#if HAS_grab
        case GRAB: {
            stale(3);
            if (I) {
                auto r = O::GRAB_();
                if (!!r != !m.vault.empty())
                    mc::fail("option", "presence differs");
                else if (!!r)
                    s[i].emplace(std::move(*r));
            }
            if (!m.vault.empty()) {
                a = m.vault.back();
                m.vault.pop_back();
            }
            break;
        }
#endif
#if HAS_opt
        case OPT_SOME:
            stale(i);
            if (I) {
                auto r = O::OPT_(Opt<W>(mv(i)));
                if (!r)
                    mc::fail("option", "present value became absent");
                else
                    *s[i] = std::move(*r);
            }
            break;
        case OPT_NONE:
            if (I) {
                auto r = O::OPT_(Opt<W>());
                if (!!r)
                    mc::fail("option", "absent value became present");
            }
            break;
#endif
#if HAS_res
        case RES_OK:
        case RES_ERR: {
            stale(i);
            bool ok = d.k == RES_OK;
            if (I) {
                auto r = O::RES_(mv(i), ok);
#ifdef USE_BOOST
                W *p = boost::get<W>(&r);
                int32_t *e = boost::get<int32_t>(&r);
#else
                W *p = std::get_if<W>(&r);
                int32_t *e = std::get_if<int32_t>(&r);
#endif
                if (!!p != ok)
                    mc::fail("result", "wrong alternative");
                else if (p)
                    *s[i] = std::move(*p);
                else
                    expect("error", *e, va);
            }
            if (!ok)
                a = NUL;
            break;
        }
#endif
#if HAS_rese
        case RESE: {
            stale(i);
            if (I) {
                auto r = O::RESE_(mv(i));
#ifdef USE_BOOST
                W *p = boost::get<W>(&r);
#else
                W *p = std::get_if<W>(&r);
#endif
                if (!p)
                    mc::fail("result", "wrong alternative");
                else
                    *s[i] = std::move(*p);
            }
            break;
        }
#endif
#if HAS_resu
        case RESU: {
            stale(i);
            if (I) {
                auto r = O::RESU_(mv(i));
                if (!r)
                    mc::fail("result", "wrong alternative");
                else
                    *s[i] = std::move(*r);
            }
            break;
        }
#endif
#if HAS_resin
        case RESIN_OK:
            stale(i);
            if (I)
                expect("value in result", O::RESIN_(RESV(mv(i))), va);
            a = NUL;
            break;
        case RESIN_ERR:
            if (I)
                expect("error in result", O::RESIN_(RESV(int32_t(-5))), -5);
            break;
#endif
#if HAS_tup
        case TUP: {
            stale(0);
            stale(1);
            if (I) {
                auto r = O::TUP_(mv(0), mv(1));
                *s[0] = std::move(r.first);
                *s[1] = std::move(r.second);
            }
            std::swap(m.slot[0], m.slot[1]);
            break;
        }
#endif
#if HAS_tupin
        case TUPIN:
            stale(i);
            if (I)
                expect("tuple", O::TUPIN_(std::pair<W, int32_t>(mv(i), 1000)), 1000 + va);
            a = NUL;
            break;
#endif
#if HAS_rf
        case RF:
            if (I)
                expect("borrowed", O::RF_(*s[i]), va);
            break;
#endif
#if HAS_rm
        case RM: {
            int v = m.val[a] % 100 + 100;
            if (I)
                O::RM_(*s[i], v);
            m.val[a] = v;
            break;
        }
#endif
        case SETM: {
            int v = m.val[a] % 100 + 200;
            if (I)
                s[i]->set(v);
            m.val[a] = v;
            break;
        }
#if HAS_of
        case OF:
            if (I)
                expect("borrowed option", O::OF_(&*s[i]), va);
            break;
        case OF_NULL:
            if (I)
                expect("borrowed option", O::OF_(nullptr), -1);
            break;
#endif
#if HAS_om
        case OM: {
            int v = m.val[a] % 100 + 300;
            if (I)
                O::OM_(&*s[i], v);
            m.val[a] = v;
            break;
        }
#endif
#if HAS_rsp
        case RSP:
            if (I) {
                expect("borrowed storage", O::RSP_(RSPARG(*s[i])), va);
            }
            if (RSP_CONSUMES_COPY)
                copied(a);
            break;
#endif
#if HAS_VIEW
        case CREF:
            if (I) {
                expect("cref", s[i]->as_cref().get(), va);
                expect("rref", s[i]->as_rref().get(), va);
                expect("cref id", s[i]->as_cref().id(), a);
            }
            break;
        case VIEW_OF:
            if (I)
                view.emplace(s[i]->as_rref());
            m.view = a, m.view_at = i, m.view_stale = false;
            break;
#if HAS_pick
        case VIEW_PICK:
            if (I)
                view.emplace(O::PICK_(*s[i]));
            m.view = a, m.view_at = i, m.view_stale = false;
            break;
#endif
#if HAS_peek
        case VIEW_PEEK:
            if (I) {
                auto r = O::PEEK_();
                if (!r)
                    mc::fail("option", "view absent");
                else
                    view.emplace(std::move(*r));
            }
            m.view = m.vault.back(), m.view_at = 3, m.view_stale = false;
            break;
#endif
        case VIEW_USE:
            if (I) {
                expect("view value", view->get(), m.val[m.view]);
                expect("view identity", view->id(), m.view);
            }
            break;
        case VIEW_MOVE:
            if (I) {
                V t(std::move(*view));
                expect("moved view", t.get(), m.val[m.view]);
                *view = std::move(t);
            }
            break;
        case VIEW_DROP:
            if (I)
                view.reset();
            m.view = NUL, m.view_stale = false, m.view_at = -1;
            break;
#endif
#if HAS_vid
        case VEC_DEF:
            if (I)
                vec.emplace();
            m.has_vec = true;
            break;
        case VEC_OUT:
            stale(3);
            if (I)
                vec.emplace(O::VOUT_());
            m.vec = m.vault;
            m.vault.clear();
            m.has_vec = true;
            break;
        case VEC_PUSH:
            stale(i);
            stale(4);
            if (I)
                vec->push(mv(i));
            m.vec.push_back(a);
            a = NUL;
            break;
        case VEC_REM0:
        case VEC_REML: {
            stale(4);
            size_t k = d.k == VEC_REM0 ? 0 : m.vec.size() - 1;
            if (I)
                s[i].emplace(vec->remove(k));
            a = m.vec[k];
            m.vec.erase(m.vec.begin() + k);
            break;
        }
#if HAS_vidx
        case VEC_IDX:
            if (I) {
                size_t k = 0;
                for (auto &&e : *vec) {
                    if (k >= m.vec.size())
                        break;
                    expect("vec iterated", e.get(), m.val[m.vec[k]]);
                    expect("vec iterated id", e.id(), m.vec[k]);
                    auto f = (*vec)[k];
                    expect("vec indexed id", f.id(), m.vec[k]);
                    ++k;
                }
                expect("vec iteration length", k, m.vec.size());
            }
            break;
        case VEC_VIEW:
            if (I)
                view.emplace((*vec)[0]);
            m.view = m.vec[0], m.view_at = 4, m.view_stale = false;
            break;
#if HAS_vsi
        case VEC_SLICE:
            if (I) {
                long sum = 0;
                for (int x : m.vec)
                    sum = sum * 1000 % 1000003 + m.val[x];
                expect("slice given to rust", O::VSI_(vec->as_slice()), sum);
            }
            break;
#endif
#if HAS_vs
        case VS:
            if (I) {
                auto sl = O::VS_();
                expect("slice length", sl.size(), m.vault.size());
                if (sl.size() == m.vault.size())
                    for (size_t k = 0; k < m.vault.size(); ++k)
                        expect("slice element", sl[k].id(), m.vault[k]);
            }
            break;
#endif
#endif
        case VEC_CROSS:
            stale(4);
            if (I) {
                auto r = O::VID_(std::move(*vec));
                if (vec->size() != 0 || !vec->empty())
                    mc::fail("vec", "passed vector is not empty afterwards");
                *vec = std::move(r);
            }
            break;
        case VEC_IN: {
            stale(4);
            long sum = 0;
            for (int x : m.vec)
                sum = sum * 1000 % 1000003 + m.val[x];
            if (I)
                expect("vector given to rust", O::VIN_(std::move(*vec)), sum);
            m.vec.clear();
            break;
        }
        case VEC_CLEAR:
            stale(4);
            if (I)
                vec->clear();
            m.vec.clear();
            break;
        case VEC_DROP:
            stale(4);
            if (I)
                vec.reset();
            m.vec.clear();
            m.has_vec = false;
            break;
        case VEC_MOVE:
            if (I) {
                fg::VECC t(std::move(*vec));
                expect("moved-from vector", vec->size(), 0);
                fg::VECC u;
                u = std::move(t);
                *vec = std::move(u);
            }
            break;
#endif
        default:
            mc::fail("engine", "operation not compiled in");
        }
        // what a stale view denotes must not be remembered once the place is gone
        if (m.view >= 0 && !m.view_stale && !m.lives(m.view))
            m.view_stale = true;
        if (I)
            verify();
    }
    void verify()
    {
        char buf[400] = "";
        if (trk_errors(buf, sizeof buf))
            mc::fail("lifetime", buf);
#if TRACKED
        if ((int)trk_born() != m.next) {
            mc::fail("objects", "number of objects ever created: " + std::to_string(trk_born()) + ", expected " + std::to_string(m.next));
            return;
        }
        uint64_t want = 0;
        for (int k = 0; k < m.next; ++k)
            if (m.lives(k))
                want |= 1ull << (k % 64);
        if (trk_live() != want) {
            char b[200];
            snprintf(b, sizeof b, "live objects %llx, expected %llx (%s)", (unsigned long long)trk_live(), (unsigned long long)want,
                     (trk_live() & ~want) ? "somebody outlives its owner" : "somebody died early");
            mc::fail("lifetime", b);
            return;
        }
#endif
        if (mc::g_failed)
            return;
        for (int k = 0; k < 2; ++k) {
            if (s[k].has_value() != (m.slot[k] != EMPTY)) {
                mc::fail("slot", "harness out of step");
                continue;
            }
            if (!s[k])
                continue;
            auto p = static_cast<W::SelfType>(*s[k]);
            if ((p != nullptr) != (m.slot[k] >= 0)) {
                mc::fail("emptiness", m.slot[k] >= 0 ? "wrapper lost its object" : "moved-from or released wrapper is not empty");
                continue;
            }
            if (p) {
                expect("object value", s[k]->get(), m.val[m.slot[k]]);
                expect("object identity", s[k]->id(), m.slot[k]);
            }
        }
#if HAS_vid
        if (m.has_vec) {
            expect("vector size", vec->size(), m.vec.size());
            expect("vector empty", vec->empty(), m.vec.empty());
        }
#endif
    }
    std::string state()
    {
        // canonical: identities renamed in order of appearance, values dropped
        std::map<int, int> ren;
        auto nm = [&](int id) -> std::string {
            if (id == EMPTY)
                return "-";
            if (id < 0)
                return "0";
            auto it = ren.emplace(id, (int)ren.size()).first;
            return std::string(1, char('a' + it->second));
        };
        std::string r = nm(m.slot[0]) + nm(m.slot[1]) + "r" + nm(m.raw) + "v";
        for (int x : m.vault)
            r += nm(x);
        r += m.has_vec ? "V" : "_";
        for (int x : m.vec)
            r += nm(x);
        r += "w";
        if (m.view >= 0)
            r += m.view_stale ? "!" : nm(m.view) + std::to_string(m.view_at);
        return r;
    }
    void finish()
    {
        bool failed = mc::g_failed;
        clear_impl();
        m = Model();
        if (failed)
            return;
        char buf[400] = "";
        if (trk_errors(buf, sizeof buf))
            mc::fail("lifetime", buf);
        if (TRACKED && trk_live() != 0)
            mc::fail("leak", "objects alive after every owner is gone");
        size_t now = mc::heap_bytes();
        if (now != base)
            mc::fail("heap", "heap not balanced: " + std::to_string((long)now - (long)base) + " bytes");
    }
};

int main(int argc, char **argv)
{
    int depth = atoi(argv[1]), bfs = atoi(argv[2]), shard = atoi(argv[3]), n = atoi(argv[4]);
    mc::install();
    mc::g_seq.reserve(64);
    vault_clear();
    mc::explore<World>(FLAVOUR_NAME, depth, bfs, shard, n);
}
