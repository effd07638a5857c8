"""P06: callbacks implemented in C++: all histories of registering, calling, moving and dropping them, and every
value of the type matrix as an argument and as a return value of a callback method."""
import os
from common import *
import cppkit, p05, vals

LEVEL = "model_checking"
ASSUMPTIONS = ["two slots, one holder object, at most two nested calls", "calls from other threads are made one at a time (a callback is Send, not Sync)"]

DESC = r'''
foreign_class!(class Obj { self_type Obj; constructor Obj::new(v: i32) -> Obj; fn Obj::v(&self) -> i32; });
foreign_callback!(callback Cb {
    self_type CbT + Send;
    note = CbT::note(&self, a: i32, b: bool, s: &str);
    noArgs = CbT::no_args(&self);
    bump = CbT::bump(&mut self, x: i64, y: u8) -> i64;
    ask = CbT::ask(&self, some: bool) -> Option<i32>;
    swapObj = CbT::swap_obj(&self, o: Obj) -> Obj;
    seeObj = CbT::see_obj(&self, o: &Obj);
    keepObj = CbT::keep_obj(&self, o: Obj) -> Obj;
    text = CbT::text(&self, s: String);
});
foreign_class!(class Keeper { self_type Keeper; constructor Keeper::new(c: Box<dyn CbT + Send>) -> Keeper; fn Keeper::bump(&mut self) -> i64; fn Keeper::into_slot(&mut self, i: u8); });
foreign_class!(class Hub {
    fn hub::put(i: u8, c: Box<dyn CbT + Send>);
    fn hub::once(c: Box<dyn CbT + Send>);
    fn hub::give_to_thread(c: Box<dyn CbT + Send>);
    fn hub::note(i: u8, a: i32);
    fn hub::note_if(i: u8, a: i32);
    fn hub::note_on_thread(i: u8, a: i32);
    fn hub::bump(i: u8, x: i64) -> i64;
    fn hub::drop_it(i: u8);
    fn hub::drop_on_thread(i: u8);
    fn hub::drop_unwinding(i: u8);
    fn hub::both();
    fn hub::swap_them();
    fn hub::no_args(i: u8);
    fn hub::ask(i: u8, some: bool) -> i32;
    fn hub::swap_obj(i: u8, v: i32) -> i32;
    fn hub::see_obj(i: u8, v: i32);
    fn hub::keep_obj(i: u8, v: i32) -> i32;
    fn hub::text(i: u8);
    fn hub::by_ref(c: *const C_Cb);
});
'''
RUST = r'''
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
#[no_mangle] pub extern "C" fn obj_live() -> i64 { LIVE.load(SeqCst) }
mod trk { include!(%s); }
pub struct Obj { v: i32, _b: Box<i32> }
impl Obj { pub fn new(v: i32) -> Obj { LIVE.fetch_add(1, SeqCst); Obj { v, _b: Box::new(v) } } pub fn v(&self) -> i32 { assert_eq!(self.v, *self._b); self.v } }
impl Drop for Obj { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
pub trait CbT {
    fn note(&self, a: i32, b: bool, s: &str);
    fn no_args(&self);
    fn bump(&mut self, x: i64, y: u8) -> i64;
    fn ask(&self, some: bool) -> Option<i32>;
    fn swap_obj(&self, o: Obj) -> Obj;
    fn see_obj(&self, o: &Obj);
    fn keep_obj(&self, o: Obj) -> Obj;
    fn text(&self, s: String);
}
pub type B = Box<dyn CbT + Send>;
static mut SLOT: [Option<B>; 2] = [None, None];
#[allow(static_mut_refs)] fn slot(i: u8) -> &'static mut Option<B> { unsafe { &mut SLOT[i as usize] } }
fn s(a: i32) -> &'static str { &"xxxxxxxx"[..(a %% 5) as usize] }
fn thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R { std::thread::spawn(f).join().unwrap() }
pub struct Keeper { c: Option<B> }
impl Keeper {
    pub fn new(c: B) -> Keeper { Keeper { c: Some(c) } }
    pub fn bump(&mut self) -> i64 { match &mut self.c { Some(c) => c.bump(9, 1), None => -1 } }
    pub fn into_slot(&mut self, i: u8) { let x = self.c.take(); *slot(i) = x; }
}
pub mod hub { use super::*;
    pub fn put(i: u8, c: B) { let old = slot(i).replace(c); drop(old); }
    pub fn once(c: B) { c.note(3, true, s(3)); c.note(4, false, s(4)); }
    pub fn give_to_thread(c: B) { thread(move || { c.note(7, true, s(7)); }) }
    pub fn note(i: u8, a: i32) { slot(i).as_ref().unwrap().note(a, a %% 2 == 1, s(a)) }
    pub fn note_if(i: u8, a: i32) { if slot(i).is_some() { note(i, a) } }
    pub fn note_on_thread(i: u8, a: i32) { thread(move || note(i, a)) }
    pub fn bump(i: u8, x: i64) -> i64 { slot(i).as_mut().unwrap().bump(x, 200) }
    pub fn drop_it(i: u8) { let x = slot(i).take(); drop(x) }
    pub fn drop_on_thread(i: u8) { let x = slot(i).take(); thread(move || drop(x)) }
    pub fn drop_unwinding(i: u8) { let x = slot(i).take(); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _x = x; std::panic::resume_unwind(Box::new(1)); })); }
    pub fn both() { let (a, b) = (slot(0).as_ref().unwrap(), slot(1).as_ref().unwrap()); a.no_args(); b.no_args(); a.text("one".into()); b.text("two".into()); b.no_args(); a.no_args(); }
    pub fn swap_them() { std::mem::swap(slot(0), slot(1)) }
    pub fn no_args(i: u8) { slot(i).as_ref().unwrap().no_args() }
    pub fn ask(i: u8, some: bool) -> i32 { slot(i).as_ref().unwrap().ask(some).unwrap_or(-1) }
    pub fn swap_obj(i: u8, v: i32) -> i32 { slot(i).as_ref().unwrap().swap_obj(Obj::new(v)).v() }
    pub fn see_obj(i: u8, v: i32) { let o = Obj::new(v); slot(i).as_ref().unwrap().see_obj(&o); assert_eq!(o.v(), v); }
    pub fn keep_obj(i: u8, v: i32) -> i32 { slot(i).as_ref().unwrap().keep_obj(Obj::new(v)).v() }
    pub fn text(i: u8) { slot(i).as_ref().unwrap().text("h\u{e9}".into()) }
    pub fn by_ref(c: *const C_Cb) { let c: &C_Cb = unsafe { &*c }; CbT::note(c, 8, false, s(8)); }
}
'''


def check(r):
    build_driver()
    rust = RUST % json.dumps(os.path.join(VERIF, "mc/rs/track.rs"))
    b = cppkit.build(r, os.path.join(r.work, "hist"), DESC, rust, write(os.path.join(r.work, "hist/main.cpp"), '#include "cb.hpp"\n'))
    if b.problem:
        r.violation("callbacks/build", b.problem, {"description": DESC})
    else:
        cppkit.run_shards(r, b.exe, "callbacks", [4 if r.thorough else 3, 4000 if r.thorough else 1500], NPROC)
    check_values(r)
    check_args(r)


TRAITS = r'''
template <class F> struct MF;
template <class R, class C, class... A> struct MF<R (C::*)(A...)> { using ret = R; template <size_t N> using at = std::tuple_element_t<N, std::tuple<A...>>; };
template <class R, class C, class... A> struct MF<R (C::*)(A...) const> : MF<R (C::*)(A...)> {};
template <class R, class C, class... A> struct MF<R (C::*)(A...) noexcept> : MF<R (C::*)(A...)> {};
template <class R, class C, class... A> struct MF<R (C::*)(A...) const noexcept> : MF<R (C::*)(A...)> {};
static int n_dead;
'''


def program(types, modes=None):
    """every value of every type as callback argument (a), as value returned by a callback (q) and echoed (e)"""
    types = p05.closure(types)
    cb, tr, ds, rs, over, body, calls = [], [], [], [], [], [], []
    if modes is None:
        def modes(t):
            return ("a" if t.out and t.name != "unit" else "") + ("q" if t.inp else "")
    for t in types:
        n, vs, m = t.name, t.vals(), modes(t)
        cx_ret = {"objr": "Obj &", "objm": "Obj &"}.get(n, t.cx)
        body.append("static const char *const x_%s[] = {%s};" % (n, ", ".join('"%s"' % v.ser for v in vs)))
        joined = "std::string() + " + " + ".join('x_%s[%d] + "\\n"' % (n, k) for k in range(len(vs)))
        if t.out:
            ds.append("fn w::r_%s(k: u32) -> %s;" % (n, t.rs))
            rs.append("pub fn r_%s(k: u32) -> %s { match k { %s _ => panic!() } }" % (n, t.ret, " ".join("%d => %s," % (k, v.rs) for k, v in enumerate(vs))))
        if t.inp:
            ds.append("fn w::a_%s(x: %s) -> String;" % (n, t.rs))
            rs.append("pub fn a_%s(x: %s) -> String { x.ser() }" % (n, t.rs))
            body.append("static %s mk_%s(unsigned k) { switch (k) { %s default: abort(); } }" % (cx_ret, n, " ".join("case %d: return %s;" % (k, v.cpp) for k, v in enumerate(vs))))
        if "a" in m:
            cb.append("a_%s = VcbT::a_%s(&self, k: u32, x: %s, z: i64);" % (n, n, t.rs))
            tr.append("fn a_%s(&self, k: u32, x: %s, z: i64);" % (n, t.rs))
            over.append('void a_%s(uint32_t k, MF<decltype(&Vcb::a_%s)>::at<1> x, int64_t z) const noexcept override { chk("cb_arg/%s", k, ser(x) + "|" + std::to_string(z), std::string(x_%s[k]) + "|" + std::to_string(-7000000000LL - k)); ++seen; }' % (n, n, n, n))
            ds.append("fn w::ca_%s(c: Box<dyn VcbT>);" % n)
            rs.append("pub fn ca_%s(c: Box<dyn VcbT>) { for k in 0..%d { c.a_%s(k, r_%s(k), -7000000000 - k as i64); } }" % (n, len(vs), n, n))
            calls.append('{ seen = 0; W::ca_%s(mk()); chk("cb_calls/%s", 0, std::to_string(seen), "%d"); }' % (n, n, len(vs)))
        if "q" in m:
            cb.append("q_%s = VcbT::q_%s(&mut self, k: u32, y: u8) -> %s;" % (n, n, t.rs))
            tr.append("fn q_%s(&mut self, k: u32, y: u8) -> %s;" % (n, t.rs))
            over.append("MF<decltype(&Vcb::q_%s)>::ret q_%s(uint32_t k, uint8_t y) noexcept override { if (y != 200 - k) ++n_bad; return mk_%s(k); }" % (n, n, n))
            ds.append("fn w::cq_%s(c: Box<dyn VcbT>) -> String;" % n)
            rs.append("pub fn cq_%s(mut c: Box<dyn VcbT>) -> String { let mut s = String::new(); for k in 0..%d { s += &c.q_%s(k, 200 - k as u8).ser(); s += \"\\n\"; } s }" % (n, len(vs), n))
            calls.append('chks("cb_ret/%s", 0, W::cq_%s(mk()), %s);' % (n, n, joined))
    desc = p05.DESC + "foreign_callback!(callback Vcb {\n self_type VcbT;\n%s\n});\nforeign_class!(class W {\n%s\n});\n" % ("\n".join(cb), "\n".join(ds))
    rust = p05.RUST + "#[allow(non_snake_case)] pub trait VcbT {\n%s\n}\n#[allow(non_snake_case)] pub mod w { use super::*;\n%s\n}\n" % ("\n".join(tr), "\n".join(rs))
    body.append(TRAITS + "static int seen;\nstruct Imp : Vcb {\n~Imp() noexcept override { ++n_dead; }\n%s\n};\nstatic std::unique_ptr<Vcb> mk() { return std::unique_ptr<Vcb>(new Imp); }" % "\n".join(over))
    calls.append('chk("cb_destroyed", 0, std::to_string(n_dead), "%d");' % len([c for c in calls if "mk()" in c]))
    return desc, rust, p05.main_text(body, calls, ["W", "Vcb"])


def build(r, d, types, flav, modes=None):
    desc, rust, main = program(types, modes)
    cfg, defs = p05.cfg_of(flav)
    return cppkit.build(r, d, desc, rust, write(os.path.join(d, "main.cpp"), main), cfg=cfg, defs=defs, opt="-O0")


def program_args(L, chunk):
    """callback methods with all ordered pairs of leaf arguments, and with long argument lists"""
    ts = [t for t in L.values() if t.out and t.name != "unit"]
    cb, tr, rs, ds, over, calls = [], [], [], [], [], []
    body = []
    for t in p05.closure(ts):
        vs = t.vals()
        body.append("static const char *const x_%s[] = {%s};" % (t.name, ", ".join('"%s"' % v.ser for v in vs)))
        body.append("static std::string ex_%s(unsigned k) { return x_%s[k %% %d]; }" % (t.name, t.name, len(vs)))
        rs.append("pub fn r_%s(k: u32) -> %s { match k %% %d { %s _ => panic!() } }" % (t.name, t.ret, len(vs), " ".join("%d => %s," % (k, v.rs) for k, v in enumerate(vs))))
    lists = [("p_%s_%s" % (a.name, b.name), [a, b]) for a in ts for b in ts]
    for n in (3, 4, 6, 9, 10, 11, 12, 16, len(ts)):
        lists += [("q%d_%d" % (n, s), [ts[(s + j) % len(ts)] for j in range(n)]) for s in range(0, len(ts), 4)]
    lists += [("same%d_%s" % (n, t.name), [t] * n) for t in ts for n in (6, 13)]
    for name, ats in lists[chunk[0]::chunk[1]]:
        n = len(ats)
        mut = len(cb) % 3 == 2
        args = ", ".join("%s: %s" % ("_" if (j + n) % 4 == 0 else "b%d" % j, t.rs) for j, t in enumerate(ats))
        rargs = ", ".join("b%d: %s" % (j, t.rs) for j, t in enumerate(ats))
        cb.append("%s = VcbT::%s(&%sself, %s) -> i64;" % (name, name, "mut " if mut else "", args))
        tr.append("fn %s(&%sself, %s) -> i64;" % (name, "mut " if mut else "", rargs))
        mx = max(len(t.vals()) for t in ats)
        want = ' + "|" + '.join("ex_%s(k + %d)" % (t.name, j) for j, t in enumerate(ats))
        got = ' + "|" + '.join("ser(c%d)" % j for j in range(n))
        over.append("int64_t %s(%s) %snoexcept override { unsigned k = call++; chk(\"callback_args/%s\", k, %s, %s); return 1000 * k + %d; }" % (
            name, ", ".join("MF<decltype(&Vcb::%s)>::at<%d> c%d" % (name, j, j) for j in range(n)), "" if mut else "const ", name, got, want, n))
        ds.append("fn w::c_%s(c: Box<dyn VcbT>) -> i64;" % name)
        rs.append("pub fn c_%s(mut c: Box<dyn VcbT>) -> i64 { let c = &mut *c; let mut s = 0; for k in 0..%d { s += c.%s(%s); } s }" % (
            name, mx, name, ", ".join("r_%s(k + %d)" % (t.name, j) for j, t in enumerate(ats))))
        calls.append('{ call = 0; int64_t s = W::c_%s(mk()); chk("callback_sum/%s", 0, std::to_string(s), "%d"); }' % (name, name, sum(1000 * k + n for k in range(mx))))
    desc = p05.DESC + "foreign_callback!(callback Vcb {\n self_type VcbT;\n%s\n});\nforeign_class!(class W {\n%s\n});\n" % ("\n".join(cb), "\n".join(ds))
    rust = p05.RUST + "#[allow(non_snake_case)] pub trait VcbT {\n%s\n}\n#[allow(non_snake_case)] pub mod w { use super::*;\n%s\n}\n" % ("\n".join(tr), "\n".join(rs))
    body.append(TRAITS + "static unsigned call;\nstruct Imp : Vcb {\n~Imp() noexcept override { ++n_dead; }\n%s\n};\nstatic std::unique_ptr<Vcb> mk() { return std::unique_ptr<Vcb>(new Imp); }" % "\n".join(over))
    calls.append('chk("cb_destroyed", 0, std::to_string(n_dead), "%d");' % len(calls))
    return desc, rust, p05.main_text(body, calls, ["W", "Vcb"])


def check_args(r):
    L = vals.leaves()

    def one(k):
        f = p05.FLAVS["std" if k < 8 else "boost"]
        desc, rust, main = program_args(L, (k % 8, 8))
        cfg, defs = p05.cfg_of(f)
        d = os.path.join(r.work, "args%d" % k)
        return cppkit.build(r, d, desc, rust, write(d + "/main.cpp", main), cfg=cfg, defs=defs, opt="-O0")
    for k, b in enumerate(pmap(one, range(16 if r.thorough else 8))):
        if b.problem:
            r.violation("callback_args/build", b.problem, {"world": "callback_args", "chunk": k})
        else:
            cppkit.absorb(r, "callback_args", run([b.exe], env=env(**cppkit.SAN_ENV), timeout=300))


SPEC = os.path.join(VERIF, "mc/specs/p06_skip.json")


class Item:
    def __init__(self, t, mode):
        self.t, self.mode, self.name, self.rs = t, mode, mode + ":" + t.name, t.rs


def build_items(r, d, items, flav):
    ms = {}
    for i in items:
        ms[i.t.name] = ms.get(i.t.name, "") + i.mode
    return build(r, d, list({i.t.name: i.t for i in items}.values()), flav, lambda t: ms.get(t.name, ""))


def items_of(deep):
    M = vals.matrix(vals.leaves(), deep)
    p5 = p05.load_skip()
    bad = set(p5["refused"]) | set(p5["broken"]["std"]) | set(p5["broken"]["boost"])
    return [Item(t, m) for n, t in M.items() if n not in bad for m in "aq" if (t.out if m == "a" else t.inp) and n != "unit"]


def check_values(r):
    skip = set(json.load(open(SPEC)))
    for f in ["std", "boost"] if not r.thorough else list(p05.FLAVS):
        its = [i for i in items_of(r.thorough) if i.name not in skip]
        p05.Groups(r, lambda d, x: build_items(r, d, x, p05.FLAVS[f]), "callback_values/" + f).go(its, 40)
        r.extra.setdefault("callback_types", {})[f] = "%d type and direction pairs, %d refused by the generator or recorded" % (len(its), len(skip))


def survey():
    build_driver()
    r = Report("P06s")
    out, det = set(), {}
    for f in ("std", "boost"):
        g = p05.Groups(r, lambda d, x: build_items(r, d, x, p05.FLAVS[f]), f, keep_going=True)
        g.go([i for i in items_of(True) if i.name not in out], 40)
        out |= {n for n, (k, _) in g.result.items() if k != "ok"}
        det[f] = {n: v for n, v in g.result.items() if v[0] != "ok"}
    json.dump(det, open("/tmp/p06_survey.json", "w"), indent=1)
    with open(SPEC, "w") as fh:
        json.dump(sorted(out), fh, indent=0)


if __name__ == "__main__":
    survey()
