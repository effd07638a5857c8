"""P05: every value of the type matrix in every position, for every C++ flavour."""
import os
from common import *
import cppkit, vals

LEVEL = "model_checking"
ASSUMPTIONS = ["integers, floats and strings by boundary values; floats compared bit for bit", "nesting depth at most 2 (quick) or 3 (thorough) type constructors"]

DESC = r'''
foreign_enum!(enum En { A = En::A, B = En::B, C = En::C, });
foreign_class!(class Obj { self_type Obj; constructor Obj::new(v: i32) -> Obj; fn Obj::vtag(&self) -> i32; fn Obj::set(&mut self, v: i32); });
foreign_class!(#[derive(Copy)] class Cp { self_type Cp; constructor Cp::new(v: i32) -> Cp; fn Cp::vtag(&self) -> i32; fn Cp::clone(&self) -> Cp; });
foreign_class!(class Sh { self_type Sh; constructor sh(v: i32) -> Rc<RefCell<Sh>>; fn Sh::vtag(&self) -> i32; });
foreign_class!(class Ar { self_type Ar; constructor ar(v: i32) -> Arc<Mutex<Ar>>; fn Ar::vtag(&self) -> i32; });
foreign_typemap!(
    define_c_type!(module = "v2.h"; #[repr(C)] #[derive(Clone, Copy)] pub struct V2 { x: f32, y: i64, z: u8, });
    (r_type) V2;
    (f_type, req_modules = ["\"v2.h\""]) "V2";
);
'''
RUST = r'''
#[allow(unused_imports)] use std::{cell::{Ref, RefCell, RefMut}, path::Path, rc::Rc, sync::{Arc, Mutex, MutexGuard}};
#[repr(C)] #[derive(Clone, Copy)] pub struct V2 { pub x: f32, pub y: i64, pub z: u8 }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum En { A, B, C }
pub struct Obj { v: i32 } impl Obj { pub fn new(v: i32) -> Obj { Obj { v } } pub fn vtag(&self) -> i32 { self.v } pub fn set(&mut self, v: i32) { self.v = v; } }
#[derive(Clone)] pub struct Cp { v: i32 } impl Cp { pub fn new(v: i32) -> Cp { Cp { v } } pub fn vtag(&self) -> i32 { self.v } }
pub struct Sh { v: i32 } impl Sh { pub fn vtag(&self) -> i32 { self.v } } pub fn sh(v: i32) -> Rc<RefCell<Sh>> { Rc::new(RefCell::new(Sh { v })) }
pub struct Ar { v: i32 } impl Ar { pub fn vtag(&self) -> i32 { self.v } } pub fn ar(v: i32) -> Arc<Mutex<Ar>> { Arc::new(Mutex::new(Ar { v })) }
#[allow(dead_code)] pub fn leak<T>(x: T) -> &'static mut T { Box::leak(Box::new(x)) }
#[allow(dead_code)] pub fn leakv<T>(x: Vec<T>) -> &'static mut [T] { Box::leak(x.into_boxed_slice()) }
pub trait Ser { const UNIT: bool = false; fn ser(&self) -> String; }
macro_rules! num { ($($t:ty)*) => { $(impl Ser for $t { fn ser(&self) -> String { self.to_string() } })* } }
num!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
impl Ser for f32 { fn ser(&self) -> String { format!("f{:08x}", self.to_bits()) } }
impl Ser for f64 { fn ser(&self) -> String { format!("d{:016x}", self.to_bits()) } }
impl Ser for bool { fn ser(&self) -> String { (if *self { "1b" } else { "0b" }).into() } }
impl Ser for () { const UNIT: bool = true; fn ser(&self) -> String { "u".into() } }
impl Ser for str { fn ser(&self) -> String { let mut s = String::from("s"); for b in self.as_bytes() { s += &format!("{:02x}", b); } s } }
impl Ser for String { fn ser(&self) -> String { self.as_str().ser() } }
impl Ser for Path { fn ser(&self) -> String { self.to_str().unwrap().ser() } }
impl Ser for En { fn ser(&self) -> String { format!("e{}", match self { En::A => 0, En::B => 1, En::C => 2 }) } }
impl Ser for V2 { fn ser(&self) -> String { format!("v(f{:08x},{},{})", self.x.to_bits(), self.y, self.z) } }
impl Ser for Obj { fn ser(&self) -> String { format!("o{}", self.v) } }
impl Ser for Cp { fn ser(&self) -> String { format!("o{}", self.v) } }
impl Ser for Rc<RefCell<Sh>> { fn ser(&self) -> String { format!("o{}", self.borrow().v) } }
impl Ser for Arc<Mutex<Ar>> { fn ser(&self) -> String { format!("o{}", self.lock().unwrap().v) } }
impl<T: Ser + ?Sized> Ser for &T { fn ser(&self) -> String { (**self).ser() } }
impl<T: Ser + ?Sized> Ser for &mut T { fn ser(&self) -> String { (**self).ser() } }
impl<T: Ser> Ser for Option<T> { fn ser(&self) -> String { match self { None => "N".into(), Some(x) => format!("S({})", x.ser()) } } }
impl<T: Ser, E: Ser> Ser for Result<T, E> { fn ser(&self) -> String { match self { Ok(_) if T::UNIT => "N".into(), Err(e) if T::UNIT => format!("S({})", e.ser()), Ok(x) => format!("ok({})", x.ser()), Err(e) => format!("er({})", e.ser()) } } }
impl<A: Ser, B: Ser> Ser for (A, B) { fn ser(&self) -> String { format!("({},{})", self.0.ser(), self.1.ser()) } }
impl<A: Ser, B: Ser, C: Ser> Ser for (A, B, C) { fn ser(&self) -> String { format!("({},{},{})", self.0.ser(), self.1.ser(), self.2.ser()) } }
impl<T: Ser> Ser for [T] { fn ser(&self) -> String { format!("[{}]", self.iter().map(|x| x.ser()).collect::<Vec<_>>().join(",")) } }
impl<T: Ser> Ser for Vec<T> { fn ser(&self) -> String { self[..].ser() } }
'''


def closure(types):
    out = {}

    def add(t):
        for d in t.deps():
            if d is not t and d.name not in out:
                add(d)
        out.setdefault(t.name, t)
    for t in types:
        add(t)
    return list(out.values())


LT = re.compile(r"&(?!')")


def rs_a(t):
    return LT.sub("&'a ", t.rs)


def program(types, inst=True, ctors=False):
    """description, Rust source and C++ main that take every value of every type through every position"""
    types = closure(types)
    ds, rs, ms, body = [], [], [], []
    inst_ds, inst_rs = [], []
    for t in types:
        n, vs = t.name, t.vals()
        cx_ret = {"objr": "Obj &", "objm": "Obj &"}.get(n, t.cx)
        body.append("static const char *const x_%s[] = {%s};" % (n, ", ".join('"%s"' % v.ser for v in vs)))
        pre = "for (unsigned k = 0; k < %d; ++k) " % len(vs)
        if t.out:
            ds.append("fn w::r_%s(k: u32) -> %s;" % (n, t.rs))
            rs.append("pub fn r_%s(k: u32) -> %s { match k { %s _ => panic!() } }" % (n, t.ret, " ".join("%d => %s," % (k, v.rs) for k, v in enumerate(vs))))
            if n == "unit":
                ms.append(pre + "W::r_unit(k);")
            else:
                ms.append(pre + '{ auto x = W::r_%s(k); chk("ret/%s", k, ser(x), x_%s[k]); }' % (n, n, n))
                if inst:
                    inst_ds.append("fn Inst::s_%s(&self, k: u32) -> %s;" % (n, t.rs))
                    inst_rs.append("pub fn s_%s(&self, k: u32) -> %s { w::r_%s(k) }" % (n, t.ret, n))
                    ms.append(pre + '{ auto x = inst.s_%s(k); chk("ret_method/%s", k, ser(x), x_%s[k]); }' % (n, n, n))
        if t.inp:
            body.append("static %s mk_%s(unsigned k) { switch (k) { %s default: abort(); } }" % (cx_ret, n, " ".join("case %d: return %s;" % (k, v.cpp) for k, v in enumerate(vs))))
            ds.append("fn w::a_%s(x: %s) -> String;" % (n, t.rs))
            rs.append("pub fn a_%s(x: %s) -> String { x.ser() }" % (n, t.rs))
            ms.append(pre + 'chks("arg/%s", k, W::a_%s(mk_%s(k)), x_%s[k]);' % (n, n, n, n))
            if inst:
                inst_ds.append("fn Inst::m_%s(&self, _: u8, x: %s, _: i64) -> String;" % (n, t.rs))
                inst_rs.append('pub fn m_%s(&self, y: u8, x: %s, z: i64) -> String { format!("{}|{}|{}|{}", self.tag, y, x.ser(), z) }' % (n, t.rs))
                ms.append(pre + 'chks("method/%s", k, inst.m_%s((uint8_t)(k + 7), mk_%s(k), -5000000000LL - k), "41|" + std::to_string(k + 7) + "|" + x_%s[k] + "|" + std::to_string(-5000000000LL - k));' % (n, n, n, n))
            if t.out:
                ds.append("fn w::i_%s(x: %s) -> %s;" % (n, t.rs, t.rs))
                rs.append("pub fn i_%s<'a>(x: %s) -> %s { x }" % (n, rs_a(t), rs_a(t)))
                ms.append(pre + '{ auto x = W::i_%s(mk_%s(k)); chk("identity/%s", k, ser(x), x_%s[k]); }' % (n, n, n, n))
                if inst:
                    inst_ds.append("fn Inst::n_%s(&mut self, x: %s) -> %s;" % (n, t.rs, t.rs))
                    inst_rs.append("pub fn n_%s<'a>(&mut self, x: %s) -> %s { self.calls += 1; x }" % (n, rs_a(t), rs_a(t)))
                    ms.append(pre + '{ auto x = inst.n_%s(mk_%s(k)); chk("identity_method/%s", k, ser(x), x_%s[k]); ++calls; }' % (n, n, n, n))
            if ctors:
                ds_c = "foreign_class!(class K_%s { self_type K_%s; constructor K_%s::new(x: %s, y: u16) -> K_%s; fn K_%s::text(&self) -> String; });\n" % (n, n, n, t.rs, n, n)
                inst_ds.append(("CLASS", ds_c))
                rs.append("pub struct K_%s(String); impl K_%s { pub fn new(x: %s, y: u16) -> K_%s { K_%s(format!(\"{}|{}\", x.ser(), y)) } pub fn text(&self) -> String { self.0.clone() } }" % (n, n, t.rs, n, n))
                ms.append(pre + '{ K_%s o(mk_%s(k), (uint16_t)(65000 + k)); chks("constructor/%s", k, o.text(), std::string(x_%s[k]) + "|" + std::to_string(65000 + k)); }' % (n, n, n, n))
    classes = [x[1] for x in inst_ds if isinstance(x, tuple)]
    inst_ds = [x for x in inst_ds if not isinstance(x, tuple)]
    inst_c = "foreign_class!(class Inst { self_type Inst; constructor Inst::new(tag: i32) -> Inst; fn Inst::calls(&self) -> i32;\n%s\n});\n" % "\n".join(inst_ds) if inst else ""
    desc = DESC + "foreign_class!(class W {\n%s\n});\n" % "\n".join(ds) + inst_c + "".join(classes)
    rust = RUST + "#[allow(non_camel_case_types, non_snake_case)] pub mod w { use super::*;\n%s\n}\n#[allow(unused_imports)] use w::*;\n" % "\n".join(rs)
    rust += "pub struct Inst { tag: i32, calls: i32 }\n#[allow(non_snake_case)] impl Inst { pub fn new(tag: i32) -> Inst { Inst { tag, calls: 0 } } pub fn calls(&self) -> i32 { self.calls }\n%s\n}\n" % "\n".join(inst_rs)
    main = main_text(body, (["Inst inst(41); int calls = 0;"] if inst else []) + ms + (['chk("calls", 0, std::to_string(inst.calls()), std::to_string(calls));'] if inst else []),
                     ["W"] + (["Inst"] if inst else []) + re.findall(r"class (K_\w+) \{", "".join(classes)))
    return desc, rust, main


def main_text(body, ms, classes):
    # one function per statement keeps the optimiser's work small
    fs = []
    head = [m for m in ms if m.startswith("Inst inst")]
    rest = [m for m in ms if not m.startswith("Inst inst")]
    glob = "static Inst &get_inst() { static Inst inst(41); return inst; }\n#define inst get_inst()\nstatic int calls;\n" if head else ""
    for i in range(0, len(rest), 40):
        fs.append("static void f%d() {\n%s\n}\n" % (i, "\n".join(rest[i:i + 40])))
    inc = "".join('#include "%s.hpp"\n' % c for c in ["Obj", "Cp", "Sh", "Ar", "En"] + classes)
    return '#include "rust_str.h"\n' + inc + '#include "v2.h"\n#include "vals.hpp"\nusing namespace fg;\nusing EnC = En;\n' \
        'template <> struct Ser<V2> { static std::string go(V2 &x) { return "v(" + ser(x.x) + "," + ser(x.y) + "," + ser(x.z) + ")"; } };\n' \
        "inline V2 mk_v2(float a, int64_t b, uint8_t c) { V2 v; v.x = a; v.y = b; v.z = c; return v; }\n" \
        + "\n".join(body) + "\n" + glob + "".join(fs) + \
        "int main() {\n%s\nprintf(\"STATS\\tvals\\tsteps=%%ld\\tseq=%%ld\\n\", n_checks, n_checks); return 0;\n}\n" % "\n".join("f%d();" % i for i in range(0, len(rest), 40))


FLAV = {"std": (0, 0, 0), "boost": (1, 1, 1)}


def cfg_of(f):
    n = ("std", "boost")
    return dict(optional=n[f[0]], variant=n[f[1]], strview=n[f[2]]), ["FL_OPT=%d" % f[0], "FL_VAR=%d" % f[1], "FL_STR=%d" % f[2]]


def build(r, d, types, flav, **k):
    desc, rust, main = program(types, **k)
    cfg, defs = cfg_of(flav)
    m = write(os.path.join(d, "main.cpp"), main)
    return cppkit.build(r, d, desc, rust, m, cfg=cfg, defs=defs, opt="-O0")


def program_args(L, chunk=None):
    """argument order: all ordered pairs of leaf types, and long mixed argument lists, static and on objects"""
    ts = [t for t in L.values() if t.inp]
    cl = closure(ts)
    ds, rs, ms, body = [], [], [], []
    for t in cl:
        cx_ret = {"objr": "Obj &", "objm": "Obj &"}.get(t.name, t.cx)
        body.append("static const char *const x_%s[] = {%s};" % (t.name, ", ".join('"%s"' % v.ser for v in t.vals())))
        body.append("static %s mk_%s(unsigned k) { switch (k %% %d) { %s default: abort(); } }" % (cx_ret, t.name, len(t.vals()), " ".join("case %d: return %s;" % (k, v.cpp) for k, v in enumerate(t.vals()))))
        body.append("static std::string ex_%s(unsigned k) { return x_%s[k %% %d]; }" % (t.name, t.name, len(t.vals())))

    def fun(name, ats, inst):
        n = len(ats)
        args = ", ".join("%s: %s" % ("_" if (k + len(name)) % 3 == 0 else "a%d" % k, t.rs) for k, t in enumerate(ats))
        rargs = ", ".join("a%d: %s" % (k, t.rs) for k, t in enumerate(ats))
        fmt = 'format!("%s", %s)' % ("|".join(["{}"] * n), ", ".join("a%d.ser()" % k for k in range(n)))
        mx = max(len(t.vals()) for t in ats)
        call = ", ".join("mk_%s(k + %d)" % (t.name, j) for j, t in enumerate(ats))
        want = ' + "|" + '.join("ex_%s(k + %d)" % (t.name, j) for j, t in enumerate(ats))
        if inst:
            ds.append(("I", "fn Inst::%s(&%sself, %s) -> String;" % (name, "mut " if inst == 2 else "", args)))
            rs.append(("I", "pub fn %s(&%sself, %s) -> String { %s }" % (name, "mut " if inst == 2 else "", rargs, fmt)))
            ms.append('for (unsigned k = 0; k < %d; ++k) chks("args/%s", k, inst.%s(%s), %s);' % (mx, name, name, call, want))
        else:
            ds.append(("W", "fn w::%s(%s) -> String;" % (name, args)))
            rs.append(("W", "pub fn %s(%s) -> String { %s }" % (name, rargs, fmt)))
            ms.append('for (unsigned k = 0; k < %d; ++k) chks("args/%s", k, W::%s(%s), %s);' % (mx, name, name, call, want))
    pairs = [(a, b) for a in ts for b in ts]
    if chunk is not None:
        pairs = pairs[chunk[0]::chunk[1]]
    for k, (a, b) in enumerate(pairs):
        fun("p_%s_%s" % (a.name, b.name), [a, b], k % 3)
    if chunk is None or chunk[0] == 0:
        for n in (3, 4, 5, 7, 11, len(ts)):
            for s in range(0, len(ts), 3):
                fun("q%d_%d" % (n, s), [ts[(s + j) % len(ts)] for j in range(n)], (n + s) % 3)
        for t in ts:
            fun("same_%s" % t.name, [t] * 6, 0)
    desc = DESC + "foreign_class!(class W {\n%s\n});\n" % "\n".join(x[1] for x in ds if x[0] == "W")
    desc += "foreign_class!(class Inst { self_type Inst; constructor Inst::new(tag: i32) -> Inst;\n%s\n});\n" % "\n".join(x[1] for x in ds if x[0] == "I")
    rust = RUST + "pub mod w { use super::*;\n%s\n}\n" % "\n".join(x[1] for x in rs if x[0] == "W")
    rust += "pub struct Inst { _tag: i32 }\nimpl Inst { pub fn new(tag: i32) -> Inst { Inst { _tag: tag } }\n%s\n}\n" % "\n".join(x[1] for x in rs if x[0] == "I")
    return desc, rust, main_text(body, ["Inst inst(41);"] + ms, ["W", "Inst"])


SPEC = os.path.join(VERIF, "mc/specs/p05_skip.json")
FLAVS = {"".join(n[0] for n in k): tuple(k_ == "boost" for k_ in k) for k in [(a, b, c) for a in ("std", "boost") for b in ("std", "boost") for c in ("std", "boost")]}
FLAVS = {k: tuple(int(x) for x in v) for k, v in FLAVS.items()}
FLAVS["std"], FLAVS["boost"] = FLAVS.pop("sss"), FLAVS.pop("bbb")


def load_skip():
    return json.load(open(SPEC)) if os.path.exists(SPEC) else {"refused": [], "broken": {}}


class Groups:
    """Builds and runs groups of types; a group that fails as a whole is split until the culprits are alone."""

    def __init__(self, r, builder, tag, keep_going=False, budget=6):
        self.r, self.builder, self.tag, self.keep_going, self.budget = r, builder, tag, keep_going, budget
        self.n = 0
        self.result = {}

    def dir(self):
        self.n += 1
        return os.path.join(self.r.work, self.tag, "g%d" % self.n)

    def one(self, ts):
        d = self.dir()
        b = self.builder(d, ts)
        if b.problem:
            out = (b.kind, b.problem)
        else:
            try:
                p = run([b.exe], env=env(**cppkit.SAN_ENV), timeout=300)
                out = ("ran", p)
            except subprocess.TimeoutExpired as e:
                out = ("hang", "the program does not end within 300 s")
        shutil.rmtree(d, ignore_errors=True)
        return ts, out

    def go(self, types, size):
        todo = [types[i:i + size] for i in range(0, len(types), size)]
        while todo:
            nxt = []
            for ts, (kind, x) in pmap(self.one, todo):
                if kind == "ran" and ("STATS\t" in x.stdout and x.returncode == 0 and "VIOL\t" not in x.stdout):
                    cppkit.absorb(self.r, self.tag, x)
                    for t in ts:
                        self.result[t.name] = ("ok", "")
                        self.r.state((self.tag, t.name))
                elif kind == "ran" and not self.keep_going and "VIOL\t" in x.stdout:
                    cppkit.absorb(self.r, self.tag, x)
                elif len(ts) > 1:
                    h = (len(ts) + 1) // 2 if not self.keep_going else 1 if len(ts) <= 5 else (len(ts) + 2) // 3
                    nxt += [ts[i:i + h] for i in range(0, len(ts), h)]
                else:
                    if kind == "ran":
                        x = "rc=%s\n%s\n%s" % (x.returncode, x.stdout[:600], "\n".join([l for l in x.stderr.splitlines() if l.strip()][:12]))
                        kind = "wrong"
                    self.result[ts[0].name] = (kind, x)
                    if not self.keep_going:
                        self.budget -= 1
                        what = {"refused": "is refused", "rust": "gives Rust code that does not compile", "cpp": "gives C++ code that does not compile"}.get(kind, kind)
                        self.r.violation("%s/%s/%s" % (self.tag, kind, ts[0].name), "%s, a type of the supported matrix, %s:\n%s" % (ts[0].rs, what, x), {"type": ts[0].rs, "world": self.tag})
            # enough culprits named: do not split everything
            todo = nxt if self.keep_going else nxt[:max(0, 2 * NPROC)] if self.budget > 0 else []


def check(r):
    build_driver()
    L = vals.leaves()
    M = vals.matrix(L, True)
    skip = load_skip()
    flavs = ["std", "boost"] if not r.thorough else list(FLAVS)
    for f in flavs:
        bad = set(skip["refused"]) | set(skip["broken"].get(f if f in skip["broken"] else "std", {})) | set(skip["broken"].get("boost" if "b" in f else "std", {}))
        ts = [t for n, t in M.items() if n not in bad and t.inp + t.out]
        g = Groups(r, lambda d, x: build(r, d, x, FLAVS[f]), "values/" + f)
        g.go(ts, 24)
        r.extra.setdefault("types", {})[f] = "%d types taken through every position, %d refused by the generator or recorded" % (len(ts), len(M) - len(ts))
    # recorded finding: boost::variant<T, T> does not tell Ok from Err
    for n in ("Ri64_i64", "Rstr_string"):
        ts, (kind, x) = Groups(r, lambda d, y: build(r, d, y, FLAVS["boost"]), "probe").one([M[n]])
        bad = x if kind != "ran" else "\n".join(l for l in x.stdout.splitlines() if l.startswith("VIOL"))[:500]
        if bad:
            r.violation("probe/boost_variant_of_same_types/" + n, bad, {"type": M[n].rs})
        r.transitions += 1
    Lt = [t for t in L.values() if t.inp]
    Groups(r, lambda d, x: build(r, d, x, FLAVS["std"], ctors=True), "constructors").go(Lt, 8)

    def args(k):
        desc, rust, main = program_args(L, (k, 8))
        d = os.path.join(r.work, "args%d" % k)
        return cppkit.build(r, d, desc, rust, write(d + "/main.cpp", main), cfg=cfg_of((k >> 2 & 1, k >> 2 & 1, k >> 2 & 1))[0], defs=cfg_of((k >> 2 & 1,) * 3)[1], opt="-O0")
    for k, b in enumerate(pmap(args, range(8))):
        if b.problem:
            r.violation("args/build", b.problem, {"world": "args"})
        else:
            cppkit.absorb(r, "args", run([b.exe], env=env(**cppkit.SAN_ENV), timeout=300))


def survey(again=False):
    """writes the list of types the generator refuses or handles wrongly (run by hand; see DESIGN.md)"""
    build_driver()
    r = Report("P05s")
    M = vals.matrix(vals.leaves(), True)
    ts = [t for t in M.values() if t.inp + t.out]
    out = {"refused": [], "broken": {}}
    det = {}
    if again:       # only what was not fine last time
        old = load_skip()
        ts = [t for t in ts if t.name in set(old["refused"]) | set(old["broken"]["std"]) | set(old["broken"]["boost"])]
    for f in ("std", "boost"):
        tt = [t for t in ts if t.name not in out["refused"]]
        g = Groups(r, lambda d, x: build(r, d, x, FLAVS[f]), f, keep_going=True)
        # the generator alone first
        ok = gen_ok(r, tt)
        for t in tt:
            if not ok[t.name] and t.name not in out["refused"]:
                out["refused"].append(t.name)
        g.go([t for t in tt if ok[t.name]], 24)
        out["broken"][f] = {n: k for n, (k, _) in g.result.items() if k != "ok"}
        det[f] = {n: v for n, v in g.result.items() if v[0] != "ok"}
    json.dump(det, open("/tmp/p05_survey.json", "w"), indent=1)
    with open(SPEC, "w") as fh:
        json.dump(out, fh, indent=0, sort_keys=True)


def gen_ok(r, tt):
    res = {}

    def do(k):
        d = os.path.join(r.work, "ok%d" % k)
        part = tt[k::32]
        jobs = []
        for t in part:
            write("%s/%s/desc.rs.in" % (d, t.name), program([t], inst=False)[0])
            os.makedirs("%s/%s/out" % (d, t.name))
            jobs.append(dict(lang="cpp", srcs=["%s/%s/desc.rs.in" % (d, t.name)], out_rs="%s/%s/g.rs" % (d, t.name), out_dir="%s/%s/out" % (d, t.name), ns="fg"))
        for t, g in zip(part, gen(jobs, d)):
            res[t.name] = g.ok
        shutil.rmtree(d)
    pmap(do, range(32))
    return res


if __name__ == "__main__":
    survey("again" in sys.argv)
