"""P04: the C++ side of Rust vectors, slices and strings (mc/cpp/cont.hpp): all operation sequences up
to a depth plus every operation out of every reachable model state, per element type and layout."""
import os
from common import *
import cppkit

LEVEL = "model_checking"
ASSUMPTIONS = ["at most 6 elements per vector; element values are small integers",
               "slices are used only while the vector they view stays put"]

PRIMS = {"i8": "int8_t", "u8": "uint8_t", "i16": "int16_t", "u16": "uint16_t", "i32": "int32_t", "u32": "uint32_t",
         "i64": "int64_t", "u64": "uint64_t", "usize": "uintptr_t", "isize": "intptr_t", "f32": "float", "f64": "double"}
# layouts of exported classes: field declarations, attribute
LAYOUTS = {"E1": ("v: u8", ""), "E3": ("v: u8, p: [u8; 2]", ""), "E8": ("v: u64", ""), "E12": ("v: u32, p: [u32; 2]", ""),
           "E24": ("v: u8, c: track::Core", ""), "E16a": ("v: u8", "#[repr(align(16))]"), "E64a": ("v: u8", "#[repr(align(64))]"), "E100": ("v: u16, p: [u16; 49]", "")}

HEAD = "use std::sync::atomic::{AtomicI64, Ordering::SeqCst};\nmod trk { include!(%s); }\n#[allow(unused_imports)] use trk::track;\nstatic LIVE: AtomicI64 = AtomicI64::new(%d);\n#[no_mangle] pub extern \"C\" fn el_live() -> i64 { LIVE.load(SeqCst) }\n"
H = "#[allow(dead_code)] fn fold<I: Iterator<Item = i64>>(i: I) -> i64 { i.fold(7, |h, x| (h * 31 + x) % 1000003) }\n"


def head(live):
    import json
    return HEAD % (json.dumps(os.path.join(VERIF, "mc/rs/track.rs")), live) + H


def prim_world(t):
    desc = """foreign_class!(class Ops {
  fn ops::mk(n: i32, base: i32, cap: i32) -> Vec<T>;
  fn ops::take(x: Vec<T>) -> i64;
  fn ops::idv(x: Vec<T>) -> Vec<T>;
  fn ops::rev(x: Vec<T>) -> Vec<T>;
  fn ops::sl(x: &[T]) -> i64;
  fn ops::slm(x: &mut [T], d: i32) -> i32;
  fn ops::slof() -> &'static [T];
  fn ops::slofm() -> &'static mut [T];
});
""".replace("T>", t + ">").replace("[T]", "[%s]" % t)
    rs = head(-1) + """static mut VAULT: Vec<T> = Vec::new();
#[allow(static_mut_refs)] fn vault() -> &'static mut Vec<T> { unsafe { &mut VAULT } }
#[no_mangle] pub extern "C" fn vault_set(n: i32, base: i32) { *vault() = Vec::new(); *vault() = ops::mk(n, base, 0); }
type T = %s;
pub mod ops { use super::*;
  pub fn mk(n: i32, base: i32, cap: i32) -> Vec<T> { let mut v = Vec::with_capacity((n + cap) as usize); for i in 0..n { v.push((base + i) as T); } v }
  pub fn take(x: Vec<T>) -> i64 { fold(x.iter().map(|x| *x as i64)) }
  pub fn idv(x: Vec<T>) -> Vec<T> { x }
  pub fn rev(mut x: Vec<T>) -> Vec<T> { x.reverse(); x.shrink_to_fit(); x }
  pub fn sl(x: &[T]) -> i64 { fold(x.iter().map(|x| *x as i64)) }
  pub fn slm(x: &mut [T], d: i32) -> i32 { for e in x.iter_mut() { *e += d as T; } x.len() as i32 }
  pub fn slof() -> &'static [T] { &vault()[..] }
  pub fn slofm() -> &'static mut [T] { &mut vault()[..] }
}
""" % t
    return desc, rs, ["FOREIGN=0", "ACCESS=0", "STRINGS=0", "ELEM=" + PRIMS[t], 'WORLD_NAME="vec_%s"' % t]


def el_items(name, storage_arc=False):
    fields, attr = LAYOUTS[name]
    core = "c: track::Core" in fields
    init = "v: v as _" + (", p: [0; %s]" % re.search(r"; (\d+)\]", fields).group(1) if "p:" in fields else "") + (", c: track::Core::new(v)" if core else "")
    rs = "%s pub struct El { %s }\nimpl El { pub fn new(v: i32) -> El { LIVE.fetch_add(1, SeqCst); El { %s } } pub fn get(&self) -> i32 { %s self.v as i32 } pub fn add(&mut self, d: i32) { self.v += d as u8 as %s; } }\n" % (
        attr, fields, init, 'self.c.touch("get");' if core else "", re.match(r"v: (\w+)", fields).group(1))
    rs += "impl Drop for El { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }\n"
    return rs


def class_world(name, boost=False):
    desc = """foreign_class!(class Elem { self_type El; constructor El::new(v: i32) -> El; fn El::get(&self) -> i32; });
foreign_class!(class Ops {
  fn ops::mk(n: i32, base: i32, cap: i32) -> Vec<El>;
  fn ops::take(x: Vec<El>) -> i64;
  fn ops::idv(x: Vec<El>) -> Vec<El>;
  fn ops::rev(x: Vec<El>) -> Vec<El>;
  fn ops::sl(x: &[El]) -> i64;
  fn ops::slm(x: &mut [El], d: i32) -> i32;
  fn ops::slof() -> &'static [El];
  fn ops::slofm() -> &'static mut [El];
});
"""
    rs = head(0) + el_items(name) + """static mut VAULT: Vec<El> = Vec::new();
#[allow(static_mut_refs)] fn vault() -> &'static mut Vec<El> { unsafe { &mut VAULT } }
#[no_mangle] pub extern "C" fn vault_set(n: i32, base: i32) { *vault() = Vec::new(); *vault() = ops::mk(n, base, 0); }
pub mod ops { use super::*;
  pub fn mk(n: i32, base: i32, cap: i32) -> Vec<El> { let mut v = Vec::with_capacity((n + cap) as usize); for i in 0..n { v.push(El::new(base + i)); } v }
  pub fn take(x: Vec<El>) -> i64 { fold(x.iter().map(|x| x.get() as i64)) }
  pub fn idv(x: Vec<El>) -> Vec<El> { x }
  pub fn rev(mut x: Vec<El>) -> Vec<El> { x.reverse(); x.shrink_to_fit(); x }
  pub fn sl(x: &[El]) -> i64 { fold(x.iter().map(|x| x.get() as i64)) }
  pub fn slm(x: &mut [El], d: i32) -> i32 { for e in x.iter_mut() { e.add(d); } x.len() as i32 }
  pub fn slof() -> &'static [El] { &vault()[..] }
  pub fn slofm() -> &'static mut [El] { &mut vault()[..] }
}
"""
    return desc, rs, ["FOREIGN=1", "ACCESS=0", "STRINGS=0", "EL=Elem", "ELREF=ElemRef", 'EL_HPP="Elem.hpp"', "VEC=RustForeignVecElem", 'WORLD_NAME="foreign_vec_%s"' % name]


def access_world():
    """vectors and slices of shared objects through the accessor templates, with the user rule of the sample program"""
    desc = r'''foreign_class!(#[derive(SmartPtrCopy)] class Elem { self_type El; constructor mk_el(v: i32) -> Arc<El>; fn El::get(&self) -> i32; });
foreign_typemap!(
    define_c_type!(
        module = "el_slice_access.h";
        #[no_mangle]
        pub extern "C" fn el_access(sl: CRustSliceAccess, idx: usize) -> *const ::std::os::raw::c_void {
            let slice: &[Arc<El>] = unsafe { ::std::slice::from_raw_parts(sl.data as *const Arc<El>, sl.len) };
            let elem_ref: &El = &slice[idx];
            elem_ref as *const El as *const ::std::os::raw::c_void
        }
    );
    foreign_code!(module = "rust_slice.h";
                    r##"
#ifdef __cplusplus
#include "el_slice_access.h"
#include "rust_slice_access.hpp"
#include "Elem.hpp"
namespace $RUST_SWIG_USER_NAMESPACE {
struct ElAccess {
       using ReturnType = ElemRef;
       static ElemRef index(CRustSliceAccess slice, size_t idx) noexcept {
           auto p = static_cast<const ElemOpaque *>(el_access(slice, idx));
           return ElemRef{ p };
       }
};
using RustElSlice = RustSliceAccess<ElAccess>;
}
#endif
"##);
    ($p:r_type) &[Arc<El>] => CRustSliceAccess { $out = CRustSliceAccess::from_slice($p); };
    ($p:f_type, req_modules = ["\"rust_slice.h\""]) => "RustElSlice" "RustElSlice{$p}";
);
foreign_typemap!(
    define_c_type!(
        module = "el_vec_access.h";
        #[no_mangle]
        pub extern "C" fn el_vec_access(sl: CRustVecAccess, idx: usize) -> *const ::std::os::raw::c_void {
            let v = CRustVecAccess::to_slice::<Arc<El>>(sl);
            let elem_ref: &El = &v[idx];
            elem_ref as *const El as *const ::std::os::raw::c_void
        }
        #[no_mangle]
        pub extern "C" fn el_vec_drop(sl: CRustVecAccess) {
            let v = CRustVecAccess::to_vec::<Arc<El>>(sl);
            drop(v);
        }
    );
    foreign_code!(module = "rust_vec_el.hpp";
                    r##"
#pragma once
#include "el_vec_access.h"
#include "rust_vec_access.hpp"
#include "Elem.hpp"
namespace $RUST_SWIG_USER_NAMESPACE {
struct ElVecAccess {
       using ElemType = ElemRef;
       static ElemRef index(CRustVecAccess cs, size_t idx) noexcept {
           auto p = static_cast<const ElemOpaque *>(el_vec_access(cs, idx));
           return ElemRef{ p };
       }
       static void free(CRustVecAccess cs) noexcept { el_vec_drop(cs); }
};
using RustVecEl = RustVecAccess<ElVecAccess, CRustVecAccess>;
}
"##);
    ($p:r_type) Vec<Arc<El>> => CRustVecAccess { $out = CRustVecAccess::from_vec($p); };
    ($p:f_type, req_modules = ["\"rust_vec_el.hpp\""]) => "RustVecEl" "RustVecEl{$p}";
);
foreign_class!(class Ops {
  fn ops::mk(n: i32, base: i32, cap: i32) -> Vec<Arc<El>>;
  fn ops::slof() -> &'static [Arc<El>];
});
'''
    rs = "use std::sync::Arc;\n" + head(0) + el_items("E24") + """pub fn mk_el(v: i32) -> Arc<El> { Arc::new(El::new(v)) }
static mut VAULT: Vec<Arc<El>> = Vec::new();
#[allow(static_mut_refs)] fn vault() -> &'static mut Vec<Arc<El>> { unsafe { &mut VAULT } }
#[no_mangle] pub extern "C" fn vault_set(n: i32, base: i32) { *vault() = Vec::new(); *vault() = ops::mk(n, base, 0); }
pub mod ops { use super::*;
  pub fn mk(n: i32, base: i32, cap: i32) -> Vec<Arc<El>> { let mut v = Vec::with_capacity((n + cap) as usize); for i in 0..n { v.push(mk_el(base + i)); } v }
  pub fn slof() -> &'static [Arc<El>] { &vault()[..] }
}
"""
    return desc, rs, ["FOREIGN=0", "ACCESS=1", "STRINGS=0", "EL=Elem", "ELREF=ElemRef", 'EL_HPP="Elem.hpp"', "VEC=RustVecEl", 'WORLD_NAME="access"']


def string_world(boost):
    desc = """foreign_class!(class Ops {
  fn ops::smk(k: i32) -> String;
  fn ops::secho(x: &str) -> String;
  fn ops::srefl(x: &str) -> &str;
  fn ops::slen(x: &str) -> usize;
  fn ops::scat(x: &str, y: &str) -> String;
});
"""
    rs = head(-1) + """#[no_mangle] pub extern "C" fn vault_set(_n: i32, _base: i32) {}
pub mod ops {
  pub fn smk(k: i32) -> String { match k { 0 => String::new(), 1 => "a".to_string(), 2 => "a\\u{e9}\\u{20ac}\\u{1f600}".to_string(), 3 => "x\\0y".to_string(),
     4 => "q".repeat(100), 5 => { let mut s = String::with_capacity(64); s.push_str("cap"); s } _ => String::with_capacity(16) } }
  pub fn secho(x: &str) -> String { assert!(::std::str::from_utf8(x.as_bytes()).is_ok()); x.to_string() }
  pub fn srefl(x: &str) -> &str { x }
  pub fn slen(x: &str) -> usize { x.len() }
  pub fn scat(x: &str, y: &str) -> String { format!("{}{}", x, y) }
}
"""
    return desc, rs, ["FOREIGN=0", "ACCESS=0", "STRINGS=1", 'WORLD_NAME="strings%s"' % ("_boost" if boost else "")] + (["USE_BOOST=1"] if boost else [])


def check(r):
    worlds = [("vec_" + t, prim_world(t), False) for t in (PRIMS if r.thorough else ("u8", "i32", "u64", "f64", "usize"))]
    worlds += [("fvec_" + e, class_world(e), False) for e in (LAYOUTS if r.thorough else ("E1", "E12", "E24", "E64a"))]
    worlds += [("access", access_world(), False), ("strings", string_world(False), False), ("strings_boost", string_world(True), True)]

    def prep(w):
        name, (desc, rs, defs), boost = w
        d = os.path.join(r.work, name)
        m = write(d + "/main.cpp", '#include "cont.hpp"\n')
        if name.startswith("vec_"):
            # the alias is named after the intermediate type: take it from what idv returns
            defs = defs + ["VECT=1"]
        return name, cppkit.build(r, d, desc, rs, m, cfg={"boost": True} if boost else {}, defs=defs + ['OPS_HPP="Ops.hpp"'] + ([] if not name.startswith("vec_") else ["VEC=%s" % vec_alias(name[4:])])), desc
    for name, b, desc in pmap(prep, worlds):
        if b.problem:
            r.violation("%s/%s" % (name, b.kind), b.problem + "\n" + desc, {"description": desc})
            continue
        big = name.startswith("strings")
        depth = (4 if big else 5) if r.thorough else 3
        cppkit.run_shards(r, b.exe, name, [depth, 4000 if r.thorough else 250], NPROC)
    run_probes(r, probes())
    r.extra["worlds"] = [w[0] for w in worlds]


def vec_alias(t):
    return "RustVec" + t


# single histories that crash the process or fail to compile when they go wrong, so they run on their own
def probes():
    def shared(st, wrap, get, derive="#[derive(SmartPtrCopy)]"):
        desc = "foreign_class!(%s class Elem { self_type El; constructor mk_el(v: i32) -> %s; fn El::get(&self) -> i32; });\nforeign_class!(class Ops { fn ops::mk(n: i32) -> Vec<%s>; });\n" % (derive, st, st)
        rs = "use std::{rc::Rc, sync::{Arc, Mutex, MutexGuard}, cell::{Ref, RefMut, RefCell}};\npub struct El { v: i32 }\nimpl El { pub fn get(&self) -> i32 { self.v } }\npub fn mk_el(v: i32) -> %s { %s }\npub mod ops { use super::*; pub fn mk(n: i32) -> Vec<%s> { (0..n).map(|i| mk_el(10 + i)).collect() } }\n" % (st, wrap % "El { v }", st)
        main = '#include "Ops.hpp"\n#include "Elem.hpp"\n#include <cstdio>\nint main() { auto v = fg::Ops::mk(3); const auto &c = v; for (int i = 0; i < 3; ++i) if (c[i].get() != 10 + i) { printf("element %d reads as %d\\n", i, (int)c[i].get()); return 1; } puts("OK"); }\n'
        return desc, rs, main
    yield "elements_of_vec_of_rc_refcell", shared("Rc<RefCell<El>>", "Rc::new(RefCell::new(%s))", "")
    yield "elements_of_vec_of_rc", shared("Rc<El>", "Rc::new(%s)", "")
    yield "elements_of_vec_of_box", shared("Box<El>", "Box::new(%s)", "", "")
    zst = ("foreign_class!(class Elem { self_type El; constructor El::new() -> El; fn El::get(&self) -> i32; });\nforeign_class!(class Ops { fn ops::mk(n: i32) -> Vec<El>; fn ops::len(v: Vec<El>) -> i32; });\n",
           "pub struct El;\nimpl El { pub fn new() -> El { El } pub fn get(&self) -> i32 { 7 } }\npub mod ops { use super::*; pub fn mk(n: i32) -> Vec<El> { (0..n).map(|_| El).collect() } pub fn len(v: Vec<El>) -> i32 { v.len() as i32 } }\n")
    yield "zero_sized_elements", zst + ('#include "Ops.hpp"\n#include "Elem.hpp"\n#include <cstdio>\nint main() { fg::RustForeignVecElem d; d.push(fg::Elem()); auto v = fg::Ops::mk(3); v.push(fg::Elem()); auto e = v.remove(0); if (v.size() != 3 || v[2].get() != 7 || e.get() != 7 || d.size() != 1 || fg::Ops::len(std::move(v)) != 3 || fg::Ops::len(std::move(d)) != 1) return 1; puts("OK"); }\n',)
    yield "iteration_over_zero_sized_elements", zst + ('#include "Ops.hpp"\n#include "Elem.hpp"\n#include <cstdio>\nint main() { auto v = fg::Ops::mk(3); int n = 0; for (auto &&e : v) n += e.get(); if (n != 21) { printf("sum over 3 elements is %d\\n", n); return 1; } puts("OK"); }\n',)
    yield "null_string_view", ("foreign_class!(class Ops { fn ops::len(x: &str) -> usize; });\n", "pub mod ops { pub fn len(x: &str) -> usize { x.len() } }\n",
           '#include "Ops.hpp"\n#include <cstdio>\nint main() { if (fg::Ops::len(std::string_view{}) != 0) return 1; puts("OK"); }\n')


def run_probes(r, prop_probes):
    def one(p):
        key, (desc, rs, main) = p
        d = os.path.join(r.work, "probe-" + key)
        b = cppkit.build(r, d, desc, rs, write(d + "/main.cpp", main))
        if b.problem:
            return key, desc, b.problem
        q = run([b.exe], env=env(**cppkit.SAN_ENV), timeout=60)
        return key, desc, None if q.returncode == 0 and "OK" in q.stdout else "rc=%s %s %s" % (q.returncode, q.stdout[:300], q.stderr[:600])
    for key, desc, bad in pmap(one, list(prop_probes)):
        r.transitions += 1
        if bad:
            r.violation("probe/" + key, bad + "\n" + desc, {"description": desc})
        else:
            r.state(("probe", key))
