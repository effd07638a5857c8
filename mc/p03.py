"""P03: C++ ownership.  For every storage flavour, all sequences of wrapper operations up to a depth,
plus every transition out of every reachable canonical state, run on the generated code next to an
ownership model (mc/cpp/own.hpp)."""
import os
from common import *
import cppkit

LEVEL = "model_checking"
ASSUMPTIONS = ["self-move-assignment is excluded (the generated code asserts against it)",
               "views are used only while what they view stays where it is",
               "two wrapper slots, one raw pointer, one view, one vector; at most MAXREF references at once"]

FL = {
    "Pl": dict(derive="", ty="PlT", st="PlT"),
    "Cl": dict(derive="#[derive(Copy)]", ty="ClT", st="ClT", copyable=1, clone=1),
    "Cp": dict(derive="#[derive(Copy)]", ty="CpT", st="CpT", copyable=1, clone=1, untracked=1),
    "Sh": dict(derive="#[derive(SmartPtrCopy)]", ty="ShT", st="Rc<RefCell<ShT>>", wrap="Rc::new(RefCell::new(%s))", get="%s.borrow().get()", copyable=1, shared=1),
    "Am": dict(derive="#[derive(SmartPtrCopy)]", ty="AmT", st="Arc<Mutex<AmT>>", wrap="Arc::new(Mutex::new(%s))", get="%s.lock().unwrap().get()", copyable=1, shared=1),
    "Rn": dict(derive="", ty="RnT", st="Rc<RefCell<RnT>>", wrap="Rc::new(RefCell::new(%s))", get="%s.borrow().get()"),
    "Bd": dict(derive="", ty="dyn BdT", st="Box<Box<dyn BdT>>", wrap="Box::new(Box::new(%s))"),
    "Bx": dict(derive="", ty="BxT", st="Box<BxT>", wrap="Box::new(%s)"),
    "R2": dict(derive="#[derive(SmartPtrCopy)]", ty="R2T", st="Rc<R2T>", wrap="Rc::new(%s)", copyable=1, shared=1, immut=1),
    "Pc": dict(derive="#[derive(PlainClass)]", ty="PcT", st="PcT", plain=1),
}
SIG = {
    "take": "(x: {V}) -> i32", "make": "(v: i32) -> {V}", "put": "(x: {V})", "grab": "() -> Option<{V}>",
    "opt": "(x: Option<{V}>) -> Option<{V}>", "res": "(x: {V}, ok: bool) -> Result<{V}, i32>", "rese": "(x: {V}) -> Result<i32, {V}>",
    "resu": "(x: {V}) -> Result<(), {V}>", "resin": "(x: Result<{V}, i32>) -> i32", "tup": "(x: {V}, y: {V}) -> ({V}, {V})",
    "tupin": "(x: ({V}, i32)) -> i32", "rf": "(x: &{T}) -> i32", "rm": "(x: &mut {T}, v: i32)", "of": "(x: Option<&{T}>) -> i32",
    "om": "(x: Option<&mut {T}>, v: i32)", "peek": "() -> Option<&'static {T}>", "pick": "(x: &{T}) -> &{T}",
    "vin": "(x: Vec<{V}>) -> i32", "vout": "() -> Vec<{V}>", "vid": "(x: Vec<{V}>) -> Vec<{V}>", "vs": "() -> &'static [{V}]",
    "vsi": "(x: &[{V}]) -> i32", "rsp": "(x: &{V}) -> i32",
}
BODY = {
    "take": "let r = {g}; r", "make": "{new}(v)", "put": "vault().push(x);", "grab": "vault().pop()", "opt": "x",
    "res": "if ok { Ok(x) } else { Err({g}) }", "rese": "Err(x)", "resu": "Err(x)", "resin": "match x { Ok(x) => {g}, Err(e) => e }",
    "tup": "(y, x)", "tupin": "let (x, n) = x; let r = n + {g}; r", "rf": "x.get()", "rm": "x.set(v);",
    "of": "match x { Some(x) => x.get(), None => -1 }", "om": "if let Some(x) = x { x.set(v); }",
    "peek": "vault().last().map(|x| {asref})", "pick": "x", "vin": "x.iter().fold(0, |s, x| s * 1000 % 1000003 + {g})",
    "vout": "std::mem::take(vault())", "vid": "x", "vs": "&vault()[..]", "vsi": "x.iter().fold(0, |s, x| s * 1000 % 1000003 + {g})",
    "rsp": "let r = {g}; r",
}
VECOPS = ("vin", "vout", "vid")


def ops_of(f, idx):
    d = FL[f]
    ops = ["take", "make", "put", "grab", "opt", "res", "rese", "resu", "resin", "tup", "tupin", "rf", "rm", "of", "om"]
    if d["st"] != d["ty"]:  # Option<&T> of a class stored behind a pointer: accepted, but does not compile (P18)
        ops.remove("of")
        ops.remove("om")
    if f == "Am":
        pass
    elif not d.get("plain"):
        ops += VECOPS
        if idx:
            ops += ["vs", "vsi"]
    if f in ("Pl", "Cl", "Cp", "Bx", "R2"):
        ops += ["peek", "pick"]
    if d.get("shared"):
        ops.append("rsp")
    return ops


def texts(f, ops):
    d = FL[f]
    t = d["ty"].replace("dyn ", "")
    new = t[:-1].lower() + "_new"
    desc = "foreign_class!(%s class %s { self_type %s; constructor %s(v: i32) -> %s;\n" % (d["derive"], f, d["ty"], new, d["st"])
    desc += " fn %s::get(&self) -> i32; fn %s::id(&self) -> u32; fn %s::set(&mut self, v: i32);\n" % (t, t, t)
    if d.get("clone"):
        desc += " fn %s::clone(&self) -> %s;\n" % (t, t)
    desc += "});\nforeign_class!(class Ops {\n"
    sub = lambda s: s.replace("{V}", d["st"]).replace("{T}", d["ty"])
    for o in ops:
        desc += "  fn ops::%s%s;\n" % (o, sub(SIG[o]))
    desc += "});\n"
    rs = "use std::{rc::Rc, cell::{Ref, RefMut, RefCell}, sync::{Arc, Mutex, MutexGuard}};\nmod trk { include!(%s); }\nuse trk::track;\n" % json_str(os.path.join(VERIF, "mc/rs/track.rs"))
    if d.get("untracked"):
        rs += "#[derive(Copy)] pub struct CpT { id: u32, val: i32 }\nimpl Clone for CpT { fn clone(&self) -> CpT { cp_new(self.val) } }\nstatic CNT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n"
        rs += "impl CpT { pub fn get(&self) -> i32 { self.val } pub fn id(&self) -> u32 { self.id } pub fn set(&mut self, v: i32) { self.val = v } }\n"
        rs += "pub fn cp_new(v: i32) -> CpT { let mut r = track::reg(); r.alive.push(true); CpT { id: r.alive.len() as u32 - 1, val: v } }\n"
    else:
        s = "BdS" if f == "Bd" else t
        rs += "%spub struct %s { core: track::Core }\n" % ("#[derive(Clone)] " if d.get("clone") else "", s)
        # &mut on shared immutable storage is not something a well-behaved Rust side offers: interior mutability
        body = "fn get(&self) -> i32 { self.core.get() } {p}fn id(&self) -> u32 { self.core.touch(\"id\"); self.core.id } {p}fn set(&mut self, v: i32) { self.core.set(v) }"
        if f == "Bd":
            rs += "pub trait BdT { fn get(&self) -> i32; fn id(&self) -> u32; fn set(&mut self, v: i32); }\nimpl BdT for BdS { %s }\n" % body.replace("{p}", "")
        else:
            rs += "impl %s { pub %s }\n" % (t, body.replace("{p}", "pub "))
        rs += "pub fn %s(v: i32) -> %s { %s }\n" % (new, d["st"], d.get("wrap", "%s") % ("%s { core: track::Core::new(v) }" % s))
    rs += "static mut VAULT: Vec<%s> = Vec::new();\n#[allow(static_mut_refs)] fn vault() -> &'static mut Vec<%s> { unsafe { &mut VAULT } }\n" % (d["st"], d["st"])
    rs += '#[no_mangle] pub extern "C" fn vault_clear() { *vault() = Vec::new(); }\n'
    g = d.get("get", "%s.get()") % "x"
    asref = "&***x" if f == "Bd" else "&**x" if d["st"].startswith(("Box", "Rc")) else "x"
    rs += "pub mod ops { use super::*;\n"
    for o in ops:
        rs += "  pub fn %s%s { %s }\n" % (o, sub(SIG[o]), BODY[o].replace("{g}", g).replace("{new}", new).replace("{asref}", asref))
    rs += "}\n"
    return desc, rs


def json_str(s):
    import json
    return json.dumps(s)


def defs_of(f, ops, idx, boost, maxref):
    d = FL[f]
    D = ["FLAVOUR=" + f, "VIEWC=%sRef" % f, "OPSC=Ops", "VECC=RustForeignVec" + f, 'FLAVOUR_NAME="%s%s%s"' % (f, "-idx" if idx == 2 else "", "-boost" if boost else ""),
         'FLAVOUR_HPP="%s.hpp"' % f, 'OPS_HPP="Ops.hpp"', "COPYABLE=%d" % d.get("copyable", 0), "SHARED=%d" % (1 if d.get("shared") else 0),
         "TRACKED=%d" % (0 if d.get("untracked") else 1), "HAS_VIEW=%d" % (0 if d.get("plain") else 1), "RSPARG=", "RSP_CONSUMES_COPY=0", "MAXREF=%d" % maxref,
         "RESV=%s<W,int32_t>" % ("boost::variant" if boost else "std::variant"), "HAS_vidx=%d" % (1 if idx else 0)]
    if boost:
        D.append("USE_BOOST=1")
    for o in SIG:
        D.append("HAS_%s=%d" % (o, o in ops))
        D.append("%s_=%s" % (o.upper(), o))
    return D


def check(r):
    jobs = []
    for f in FL:
        d = FL[f]
        idx = 1 if d["st"] == d["ty"] and not d.get("plain") else 0
        for boost in ((False, True) if r.thorough else (False,)):
            jobs.append((f, idx, boost))
    main = os.path.join(VERIF, "mc/cpp/own.hpp")

    def prep(j):
        f, idx, boost = j
        ops = ops_of(f, idx)
        desc, rs = texts(f, ops)
        d = os.path.join(r.work, "%s-%d-%d" % (f, idx, boost))
        m = write(d + "/main.cpp", '#include "own.hpp"\n')
        b = cppkit.build(r, d, desc, rs, m, cfg={"boost": True} if boost else {}, defs=defs_of(f, ops, idx, boost, 4 if r.thorough else 3), opt="-O1")
        return j, b, desc
    for (f, idx, boost), b, desc in pmap(prep, jobs):
        name = f + ("-idx" if idx == 2 else "") + ("-boost" if boost else "")
        if b.problem:
            r.violation("%s/%s" % (name, b.kind), b.problem + "\n" + desc, {"description": desc})
            continue
        depth = 4 if r.thorough else 3
        cppkit.run_shards(r, b.exe, name, [depth, 20000 if r.thorough else 3000], NPROC)
    r.extra["flavours"] = sorted(FL)
