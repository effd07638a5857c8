"""P13: methods reach the right object however it is stored. Storage x receiver x construction through the real generator;
histories of construction, calls, sharing and dropping in lock step with an object model (log of every Rust call)."""
import json, os, shutil
from common import *
import cppkit, jkit

LEVEL = "model_checking"
ASSUMPTIONS = ["two foreign handles at a time, object values modulo 4", "one thread"]
B, RC, ARC, REF, MTX = "Box", "Rc", "Arc", "RefCell", "Mutex"
W1 = [B, RC, ARC, REF, MTX]
DEEP = [(B, RC, REF), (RC, REF, B), (ARC, MTX, B), (ARC, RC, REF), (ARC, MTX, REF), (RC, REF, RC)]
DYN = [(B, B), (RC, B), (ARC, B), (REF, B), (MTX, B), (RC, REF, B), (ARC, MTX, B)]


def storages():
    """(wrappers, self type is a trait object)"""
    out = [((), 0)] + [((a,), 0) for a in W1]
    two = [(B, B), (B, RC), (B, REF), (B, MTX), (RC, B), (RC, RC), (RC, REF), (RC, MTX), (ARC, B), (ARC, RC), (ARC, REF), (ARC, MTX), (REF, B), (REF, RC), (REF, REF), (REF, MTX), (MTX, B), (MTX, RC), (MTX, REF), (MTX, MTX)]
    return out + [(s, 0) for s in two] + [(s, 0) for s in DEEP] + [(s, 1) for s in DYN]


def nm(s, t):
    for w in reversed(s):
        t = "%s<%s>" % (w, t)
    return t


def mk(s, v):
    for w in reversed(s):
        v = "%s::new(%s)" % (w, v)
    return v


def is_free(s, p):
    if not s:
        return "true"
    if s[0] in (B, RC, ARC):
        return is_free(s[1:], "(*%s)" % p)
    f = "try_borrow_mut" if s[0] == REF else "try_lock"
    return "match %s.%s() { Err(_) => false, Ok(g) => { let g = &*g; let _ = g; %s } }" % (p, f, is_free(s[1:], "(*g)"))


def reach(s, p, mut):
    if not s:
        return p
    if s[0] in (B, RC, ARC):
        return reach(s[1:], "(*%s)" % p, mut)
    last = not any(w in (REF, MTX) for w in s[1:])
    f = "lock().unwrap" if s[0] == MTX else "borrow_mut" if mut and last else "borrow"
    return reach(s[1:], "(*%s.%s())" % (p, f), mut)


def pokable(s):
    k = max([i for i, w in enumerate(s) if w in (REF, MTX)], default=-1)
    return k >= 0 and s[0] in (RC, ARC) and all(w == B for w in s[k + 1:])


# name, receiver, Rust path, parameters, result
METHODS = [
    ("get", "&", "Ob::get", "", "i32"), ("add", "&mut", "Ob::add", "a: i32", ""), ("add2", "&mut", "Ob::add2", "a: i32, b: i64", "i64"),
    ("three", "&", "Ob::three", "a: u8, b: &str, c: i32", "String"), ("trm", "&", "Tm::trm", "x: i32", "i32"), ("trset", "&mut", "Tm::trset", "x: i32", "i32"),
    ("freef", "&", "w::freef", "x: i32", "i32"), ("freem", "&mut", "w::freem", "x: i32, y: i32", "i32"), ("fal", "&mut", "Ob::fal", "x: i32", "Result<i32, String>"),
    ("inl", "&", "", "x: i32", "i32"), ("inlm", "&mut", "", "x: i32", ""), ("same1", "&", "Ob::same1", "x: i32", "i32"), ("same2", "&", "Ob::same2", "x: i32", "i32"),
]
MUTS = {"add", "add2", "trset", "freem", "fal", "inlm"}


def texts(s, dyn, lang, fallible, shared, methods):
    T = "dyn Tr" if dyn else "Ob"
    S = nm(s, T)
    weak = s and s[0] in (RC, ARC)
    W = "std::%s::Weak<%s>" % ("rc" if s and s[0] == RC else "sync", nm(s[1:], T)) if weak else "()"
    D = []
    ret = "Result<%s, String>" % S if fallible else S
    for n, r, path, par, rt in METHODS:
        if n not in methods:
            continue
        if dyn:
            path = path.replace("Ob::", "Tr::").replace("Tm::", "Tr::")
        ps = (", " + par if par else "")
        if path:
            D.append("fn %s(%s self%s)%s;%s" % (path, r, ps, " -> " + rt if rt else "", ""))
        else:
            body = "{ this.note(\"inl\", x.to_string()); this.val() * 10 + x }" if r == "&" else "{ this.note(\"inlm\", x.to_string()); let v = (this.val() + x) % 4; this.put(v); }"
            D.append("fn %s(%s self%s)%s %s" % (n, r, ps, " -> " + rt if rt else "", body))
    derive = "#[derive(SmartPtrCopy)]\n" if shared else ""
    share = "fn w::share(x: &%s) -> %s;" % (S, S) if shared and lang == "java" else ""
    desc = "%sforeign_class!(class Cl { self_type %s; constructor w::new(v: i32) -> %s; constructor w::new2(a: i32, b: i32) -> %s; %s fn w::stat(a: i32, b: i32) -> i32; });\n" % (derive, T, ret, ret, "\n".join(D)) if not derive else \
        "foreign_class!(%sclass Cl { self_type %s; constructor w::new(v: i32) -> %s; constructor w::new2(a: i32, b: i32) -> %s; %s fn w::stat(a: i32, b: i32) -> i32; });\n" % (derive, T, ret, ret, "\n".join(D))
    desc += "foreign_class!(class W { fn w::log() -> String; fn w::reset(); fn w::all_free() -> bool; fn w::peek(id: i32) -> i32; fn w::poke(id: i32, v: i32); %s });\n" % share
    tr = "fn val(&self) -> i32; fn put(&mut self, v: i32); fn note(&self, f: &str, a: String); fn id(&self) -> i32; fn get(&self) -> i32 { self.note(\"get\", String::new()); self.val() } fn add(&mut self, a: i32) { self.note(\"add\", a.to_string()); let v = (self.val() + a) % 4; self.put(v); } fn add2(&mut self, a: i32, b: i64) -> i64 { self.note(\"add2\", format!(\"{},{}\", a, b)); let v = (self.val() + a) % 4; self.put(v); b * 10 + v as i64 } fn three(&self, a: u8, b: &str, c: i32) -> String { self.note(\"three\", format!(\"{},{},{}\", a, b, c)); format!(\"{}{}{}{}\", c, b, a, self.val()) } fn trm(&self, x: i32) -> i32 { self.note(\"trm\", x.to_string()); x * 10 + self.val() } fn trset(&mut self, x: i32) -> i32 { self.note(\"trset\", x.to_string()); let o = self.val(); self.put(x); o } fn fal(&mut self, x: i32) -> Result<i32, String> { self.note(\"fal\", x.to_string()); let v = (self.val() + 1) % 4; self.put(v); if x > 0 { Ok(v) } else { Err(format!(\"no {}\", v)) } } fn same1(&self, x: i32) -> i32 { self.note(\"same1\", x.to_string()); x + 1 } fn same2(&self, x: i32) -> i32 { self.note(\"same2\", x.to_string()); x + 2 }"
    R = '''
use std::{rc::Rc, sync::{Arc, Mutex, MutexGuard}, cell::{Ref, RefMut, RefCell}};
static LOG: Mutex<String> = Mutex::new(String::new());
static NEXT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
pub struct Ob { id: i32, v: i32 }
impl Drop for Ob { fn drop(&mut self) { LOG.lock().unwrap().push_str(&format!("~{};", self.id)); } }
pub trait Tr { %s }
impl Tr for Ob { fn val(&self) -> i32 { self.v } fn put(&mut self, v: i32) { self.v = v; } fn id(&self) -> i32 { self.id } fn note(&self, f: &str, a: String) { LOG.lock().unwrap().push_str(&format!("{}#{}({});", f, self.id, a)); } }
''' % tr
    if not dyn:
        R += '''impl Ob { pub fn get(&self) -> i32 { Tr::get(self) } pub fn add(&mut self, a: i32) { Tr::add(self, a) } pub fn add2(&mut self, a: i32, b: i64) -> i64 { Tr::add2(self, a, b) } pub fn three(&self, a: u8, b: &str, c: i32) -> String { Tr::three(self, a, b, c) } pub fn fal(&mut self, x: i32) -> Result<i32, String> { Tr::fal(self, x) } pub fn same1(&self, x: i32) -> i32 { Tr::same1(self, x) } pub fn same2(&self, x: i32) -> i32 { Tr::same2(self, x) } }
pub trait Tm { fn trm(&self, x: i32) -> i32; fn trset(&mut self, x: i32) -> i32; } impl Tm for Ob { fn trm(&self, x: i32) -> i32 { Tr::trm(self, x) } fn trset(&mut self, x: i32) -> i32 { Tr::trset(self, x) } }
'''
    down = {RC: "Rc::downgrade(&s)", ARC: "Arc::downgrade(&s)"}.get(s[0] if s else "", "()")
    new = "Ok(s)" if fallible else "s"
    R += '''pub mod w { use super::*;
struct Reg(Vec<%(W)s>); unsafe impl Send for Reg {}
static REG: Mutex<Reg> = Mutex::new(Reg(Vec::new()));
fn ob(v: i32) -> %(S)s { let id = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst); let s: %(S)s = %(mk)s; REG.lock().unwrap().0.push(%(down)s); s }
pub fn new(v: i32) -> %(ret)s { %(bad)s let s = ob(v); %(new)s }
pub fn new2(a: i32, b: i32) -> %(ret)s { let s = ob((a * 2 + b) %% 4); %(new)s }
pub fn stat(a: i32, b: i32) -> i32 { LOG.lock().unwrap().push_str(&format!("stat({},{});", a, b)); a * 100 + b }
pub fn freef(this: &(%(Td)s), x: i32) -> i32 { this.note("freef", x.to_string()); this.val() * 100 + x }
pub fn freem(this: &mut (%(Td)s), x: i32, y: i32) -> i32 { this.note("freem", format!("{},{}", x, y)); let o = this.val(); this.put((x + y) %% 4); o }
pub fn log() -> String { std::mem::take(&mut *LOG.lock().unwrap()) }
pub fn reset() { LOG.lock().unwrap().clear(); NEXT.store(0, std::sync::atomic::Ordering::SeqCst); REG.lock().unwrap().0.clear(); }
pub fn all_free() -> bool { let r = REG.lock().unwrap(); r.0.iter().all(|x| { %(free)s }) }
pub fn peek(id: i32) -> i32 { let r = REG.lock().unwrap(); let x = &r.0[id as usize]; %(peek)s }
pub fn poke(id: i32, v: i32) { let r = REG.lock().unwrap(); let x = &r.0[id as usize]; %(poke)s }
%(share)s
}
''' % dict(W=W, S=S, mk=mk(s, "Ob { id, v }"), down=down, ret=ret, new=new, bad='if v < 0 { return Err(format!("bad {}", v)); }' if fallible else "", Td=T,
           free="match x.upgrade() { None => true, Some(p) => { let p = &*p; %s } }" % is_free(s[1:], "(*p)") if weak else "let _ = x; true",
           peek="let p = x.upgrade().unwrap(); let v = %s.val(); v" % reach(s, "p", 0) if weak else "let _ = x; -1",
           poke="let p = x.upgrade().unwrap(); %s.put(v);" % reach(s, "p", 1) if pokable(s) else "let _ = (x, v);",
           share="pub fn share(x: &%s) -> %s { x.clone() }" % (S, S) if shared else "")
    return desc, R


CPP = r'''
#include "Cl.hpp"
#include "W.hpp"
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace fg; using std::string; using std::to_string;
struct O { int id, v; };
static Cl *R[2]; static std::shared_ptr<O> M[2]; static int born; static string want;
static long steps, seqs; static std::set<string> reported;
struct Bad { string m; };
static void eq(const string &a, const string &b, const char *w) { if (a != b) throw Bad{string(w) + ": " + a + ", expected " + b}; }
static void eq(long long a, long long b, const char *w) { eq(to_string(a), to_string(b), w); }
static string logs() { return W::log().to_std_string(); }
struct Op { string n; std::function<bool()> can; std::function<void()> go; };
static std::vector<Op> ops;
static void gone(std::shared_ptr<O> &p) { if (p && p.use_count() == 1) want += "~" + to_string(p->id) + ";"; p.reset(); }
static void drop(int s) { delete R[s]; R[s] = nullptr; gone(M[s]); }
static string N(const char *f, int s, const string &a) { return string(f) + "#" + to_string(M[s]->id) + "(" + a + ");"; }
static void mkops() {
  for (int s = 0; s < 2; ++s) {
    string S = to_string(s); int t = 1 - s;
    auto add = [&](const string &n, std::function<void()> f) { ops.push_back({n + " " + S, [s] { return (bool)M[s]; }, f}); };
    auto make = [&](const string &n, std::function<void()> f) { ops.push_back({n + " " + S, [s] { return !M[s]; }, f}); };
    for (int v : {1, 2}) make("new" + to_string(v), [s, v] { R[s] = new Cl(v); M[s] = std::make_shared<O>(O{born++, v}); });
    make("new2", [s] { R[s] = new Cl(1, 1); M[s] = std::make_shared<O>(O{born++, 3}); });
    add("drop", [s] { drop(s); });
#if HAS_add
    add("add", [s] { R[s]->add(3); want += N("add", s, "3"); M[s]->v = (M[s]->v + 3) % 4; });
#endif
#if HAS_add2
    add("add2", [s] { auto x = R[s]->add2(1, -5000000000LL); want += N("add2", s, "1,-5000000000"); M[s]->v = (M[s]->v + 1) % 4; eq(x, -50000000000LL + M[s]->v, "add2"); });
#endif
#if HAS_three
    add("three", [s] { auto x = R[s]->three(250, "q,", -7).to_std_string(); want += N("three", s, "250,q,,-7"); eq(x, "-7q,250" + to_string(M[s]->v), "three"); });
#endif
#if HAS_trm
    add("trm", [s] { auto x = R[s]->trm(4); want += N("trm", s, "4"); eq(x, 40 + M[s]->v, "trm"); });
#endif
#if HAS_trset
    add("trset", [s] { auto x = R[s]->trset(2); want += N("trset", s, "2"); eq(x, M[s]->v, "trset"); M[s]->v = 2; });
#endif
#if HAS_freef
    add("freef", [s] { auto x = R[s]->freef(5); want += N("freef", s, "5"); eq(x, M[s]->v * 100 + 5, "freef"); });
#endif
#if HAS_freem
    add("freem", [s] { auto x = R[s]->freem(7, 2); want += N("freem", s, "7,2"); eq(x, M[s]->v, "freem"); M[s]->v = 1; });
#endif
#if HAS_fal
    for (int k : {0, 1}) add("fal" + to_string(k), [s, k] { auto x = R[s]->fal(k); want += N("fal", s, to_string(k)); M[s]->v = (M[s]->v + 1) % 4;
      if (k) eq(std::get<int32_t>(x), M[s]->v, "fal"); else eq(std::get<RustString>(x).to_std_string(), "no " + to_string(M[s]->v), "fal"); });
#endif
#if HAS_inl
    add("inl", [s] { auto x = R[s]->inl(6); want += N("inl", s, "6"); eq(x, M[s]->v * 10 + 6, "inl"); });
#endif
#if HAS_inlm
    add("inlm", [s] { R[s]->inlm(2); want += N("inlm", s, "2"); M[s]->v = (M[s]->v + 2) % 4; });
#endif
#if HAS_same1
    add("same1", [s] { eq(R[s]->same1(5), 6, "same1"); want += N("same1", s, "5"); });
#endif
#if HAS_same2
    add("same2", [s] { eq(R[s]->same2(5), 7, "same2"); want += N("same2", s, "5"); });
#endif
    add("stat", [s] { eq(Cl::stat(3, 4), 304, "stat"); want += "stat(3,4);"; });
    ops.push_back({"move " + S, [s, t] { return M[s] && !M[t]; }, [s, t] { R[t] = new Cl(std::move(*R[s])); delete R[s]; R[s] = nullptr; M[t] = M[s]; M[s].reset(); }});
    ops.push_back({"moveassign " + S, [s, t] { return M[s] && M[t]; }, [s, t] { *R[t] = std::move(*R[s]); delete R[s]; R[s] = nullptr; gone(M[t]); M[t] = M[s]; M[s].reset(); }});
#if SHARED
    ops.push_back({"share " + S, [s, t] { return M[s] && !M[t]; }, [s, t] { R[t] = new Cl(*R[s]); M[t] = M[s]; }});
    ops.push_back({"assign " + S, [s, t] { return M[s] && M[t]; }, [s, t] { *R[t] = *R[s]; if (M[s] != M[t]) { gone(M[t]); M[t] = M[s]; } }});
#endif
#if POKE
    add("poke", [s] { W::poke(M[s]->id, 0); M[s]->v = 0; });
#endif
  }
}
static void observe() {
  eq(logs(), want, "calls seen by Rust"); want.clear();
  if (!W::all_free()) throw Bad{"a borrow or lock is still held after the call"};
  for (int s = 0; s < 2; ++s) if (M[s]) {
#if HAS_get
    eq(R[s]->get(), M[s]->v, "value of the object"); eq(logs(), N("get", s, ""), "calls seen by Rust");
#endif
#if WEAK
    eq(W::peek(M[s]->id), M[s]->v, "value seen by Rust");
#endif
  }
}
static void reset() { for (int s = 0; s < 2; ++s) { delete R[s]; R[s] = nullptr; M[s].reset(); } W::reset(); born = 0; want.clear(); }
typedef std::vector<int> Seq;
static string text(const Seq &q) { string r; for (int i : q) r += (r.empty() ? "" : "; ") + ops[i].n; return r; }
static bool run(const Seq &q) {
  reset();
  for (size_t i = 0; i < q.size(); ++i) {
    if (!ops[q[i]].can()) return false;
    ++steps;
    try { ops[q[i]].go(); observe(); } catch (const Bad &b) {
      string k = ops[q[i]].n; k = k.substr(0, k.find(' '));
      if (reported.insert(k).second) printf("VIOL\t%s\t%s\t%s\n", k.c_str(), b.m.c_str(), text(q).c_str());
      return false;
    } catch (const std::exception &e) { printf("VIOL\texception\t%s\t%s\n", e.what(), text(q).c_str()); return false; }
  }
  return true;
}
static string canon() { string r; for (int s = 0; s < 2; ++s) r += M[s] ? to_string(M[s]->v) + (s && M[0] == M[1] ? "=" : "") : "-"; return r; }
static void deep(Seq &q, int d) {
  for (int i = 0; i < (int)ops.size(); ++i) { q.push_back(i); if (run(q)) { ++seqs; if (d > 1) deep(q, d - 1); } q.pop_back(); }
}
int main(int, char **a) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  mkops();
  std::map<string, Seq> seen; std::deque<Seq> todo; seen[canon()] = {}; todo.push_back({}); Seq last;
  while (!todo.empty()) {
    Seq p = todo.front(); todo.pop_front(); run(p); printf("STATE\t%s\n", canon().c_str());
    for (int i = 0; i < (int)ops.size(); ++i) { Seq q = p; q.push_back(i); if (!run(q)) continue; string c = canon(); if (!seen.count(c)) { seen[c] = q; todo.push_back(q); last = q; } }
  }
  Seq q; deep(q, atoi(a[1])); reset();
  printf("SAMPLE\t%s\nSTATS\thistories\tsteps=%ld\tseq=%ld\n", text(last).c_str(), steps, seqs);
}
'''

JAVA = r'''
package org.fg;
import java.util.*;
public class Main {
  static class O { int id, v, refs; O(int i, int w) { id = i; v = w; refs = 1; } }
  static class Bad extends RuntimeException { Bad(String m) { super(m); } }
  static Cl[] R = new Cl[2]; static O[] M = new O[2]; static int born; static String want = ""; static long steps, seqs; static Set<String> reported = new HashSet<>();
  static void eq(Object a, Object b, String w) { if (!a.equals(b)) throw new Bad(w + ": " + a + ", expected " + b); }
  interface C { boolean can(); } interface G { void go() throws Exception; }
  static class Op { String n; C c; G g; Op(String n, C c, G g) { this.n = n; this.c = c; this.g = g; } }
  static List<Op> ops = new ArrayList<>();
  static void gone(int s) { if (M[s] != null && --M[s].refs == 0) want += "~" + M[s].id + ";"; M[s] = null; }
  static String N(String f, int s, String a) { return f + "#" + M[s].id + "(" + a + ");"; }
  static void add(String n, int s, G g) { ops.add(new Op(n + " " + s, () -> M[s] != null, g)); }
  static void make(String n, int s, G g) { ops.add(new Op(n + " " + s, () -> M[s] == null, g)); }
  static void mkops() {
    for (int k = 0; k < 2; ++k) {
      final int s = k, t = 1 - k;
      for (int w = 1; w < 3; ++w) { final int v = w; make("new" + v, s, () -> { R[s] = new Cl(v); M[s] = new O(born++, v); }); }
      make("new2", s, () -> { R[s] = new Cl(1, 1); M[s] = new O(born++, 3); });
      //FALLIBLE make("bad", s, () -> { String m; try { R[s] = new Cl(-4); m = "no exception"; } catch (Exception e) { m = e.getMessage(); } eq(m, "bad -4", "failed construction"); });
      add("drop", s, () -> { R[s].delete(); R[s] = null; gone(s); });
      //HAS_add add("add", s, () -> { R[s].add(3); want += N("add", s, "3"); M[s].v = (M[s].v + 3) % 4; });
      //HAS_add2 add("add2", s, () -> { long x = R[s].add2(1, -5000000000L); want += N("add2", s, "1,-5000000000"); M[s].v = (M[s].v + 1) % 4; eq(x, -50000000000L + M[s].v, "add2"); });
      //HAS_three add("three", s, () -> { String x = R[s].three((short) 250, "q,", -7); want += N("three", s, "250,q,,-7"); eq(x, "-7q,250" + M[s].v, "three"); });
      //HAS_trm add("trm", s, () -> { int x = R[s].trm(4); want += N("trm", s, "4"); eq(x, 40 + M[s].v, "trm"); });
      //HAS_trset add("trset", s, () -> { int x = R[s].trset(2); want += N("trset", s, "2"); eq(x, M[s].v, "trset"); M[s].v = 2; });
      //HAS_freef add("freef", s, () -> { int x = R[s].freef(5); want += N("freef", s, "5"); eq(x, M[s].v * 100 + 5, "freef"); });
      //HAS_freem add("freem", s, () -> { int x = R[s].freem(7, 2); want += N("freem", s, "7,2"); eq(x, M[s].v, "freem"); M[s].v = 1; });
      //HAS_fal for (int q = 0; q < 2; ++q) { final int p = q; add("fal" + p, s, () -> { String x; try { x = "" + R[s].fal(p); } catch (Exception e) { x = e.getMessage(); } want += N("fal", s, "" + p); M[s].v = (M[s].v + 1) % 4; eq(x, p > 0 ? "" + M[s].v : "no " + M[s].v, "fal"); }); }
      //HAS_inl add("inl", s, () -> { int x = R[s].inl(6); want += N("inl", s, "6"); eq(x, M[s].v * 10 + 6, "inl"); });
      //HAS_inlm add("inlm", s, () -> { R[s].inlm(2); want += N("inlm", s, "2"); M[s].v = (M[s].v + 2) % 4; });
      //HAS_same1 add("same1", s, () -> { eq(R[s].same1(5), 6, "same1"); want += N("same1", s, "5"); });
      //HAS_same2 add("same2", s, () -> { eq(R[s].same2(5), 7, "same2"); want += N("same2", s, "5"); });
      add("stat", s, () -> { eq(Cl.stat(3, 4), 304, "stat"); want += "stat(3,4);"; });
      //SHARED ops.add(new Op("share " + s, () -> M[s] != null && M[t] == null, () -> { R[t] = W.share(R[s]); M[t] = M[s]; ++M[s].refs; }));
      ops.add(new Op("alias " + s, () -> M[s] != null && M[t] == null, () -> { R[t] = R[s]; R[s] = null; M[t] = M[s]; M[s] = null; }));
      //POKE add("poke", s, () -> { W.poke(M[s].id, 0); M[s].v = 0; });
    }
  }
  static void observe() {
    eq(W.log(), want, "calls seen by Rust"); want = "";
    if (!W.all_free()) throw new Bad("a borrow or lock is still held after the call");
    for (int s = 0; s < 2; ++s) if (M[s] != null) {
      //HAS_get eq(R[s].get(), M[s].v, "value of the object"); eq(W.log(), N("get", s, ""), "calls seen by Rust");
      //WEAK eq(W.peek(M[s].id), M[s].v, "value seen by Rust");
    }
  }
  static void reset() { for (int s = 0; s < 2; ++s) { if (R[s] != null) R[s].delete(); R[s] = null; M[s] = null; } W.reset(); born = 0; want = ""; }
  static String text(List<Integer> q) { StringBuilder r = new StringBuilder(); for (int i : q) r.append(r.length() == 0 ? "" : "; ").append(ops.get(i).n); return r.toString(); }
  static boolean run(List<Integer> q) {
    reset();
    for (int i : q) {
      Op o = ops.get(i);
      if (!o.c.can()) return false;
      ++steps;
      try { o.g.go(); observe(); } catch (Exception e) {
        String k = o.n.split(" ")[0];
        if (reported.add(k)) System.out.println("VIOL\t" + k + "\t" + (e instanceof Bad ? e.getMessage() : "" + e) + "\t" + text(q));
        return false;
      }
    }
    return true;
  }
  static String canon() { String r = ""; for (int s = 0; s < 2; ++s) r += M[s] != null ? M[s].v + (s == 1 && M[0] == M[1] ? "=" : "") : "-"; return r; }
  static void deep(List<Integer> q, int d) { for (int i = 0; i < ops.size(); ++i) { q.add(i); if (run(q)) { ++seqs; if (d > 1) deep(q, d - 1); } q.remove(q.size() - 1); } }
  public static void main(String[] a) {
    System.load(System.getProperty("fg.lib"));
    mkops();
    Set<String> seen = new HashSet<>(); ArrayDeque<List<Integer>> todo = new ArrayDeque<>(); seen.add(canon()); todo.add(new ArrayList<>()); List<Integer> last = new ArrayList<>();
    while (!todo.isEmpty()) {
      List<Integer> p = todo.poll(); run(p); System.out.println("STATE\t" + canon());
      for (int i = 0; i < ops.size(); ++i) { List<Integer> q = new ArrayList<>(p); q.add(i); if (!run(q)) continue; if (seen.add(canon())) { todo.add(q); last = q; } }
    }
    deep(new ArrayList<>(), Integer.parseInt(a[0])); reset();
    System.out.println("SAMPLE\t" + text(last) + "\nSTATS\thistories\tsteps=" + steps + "\tseq=" + seqs);
    System.out.flush(); Runtime.getRuntime().halt(0);
  }
}
'''


def key(lang, s, dyn, fallible, shared):
    return "%s/%s%s%s" % (lang, nm(s, "dyn" if dyn else "Ob"), "/fallible" if fallible else "", "/shared" if shared else "")


def flags(s, shared, fallible, ms):
    return {"SHARED": shared, "POKE": pokable(s), "WEAK": bool(s) and s[0] in (RC, ARC), "FALLIBLE": fallible, **{"HAS_" + m[0]: m[0] in ms for m in METHODS}}


def build(r, lang, s, dyn, fallible, shared, ms):
    d = os.path.join(r.work, re.sub(r"\W+", "_", key(lang, s, dyn, fallible, shared)) + ("" if len(ms) > 1 else "_" + "".join(ms)))
    desc, rust = texts(s, dyn, lang, fallible, shared, ms)
    F = flags(s, shared, fallible, ms)
    if lang == "cpp":
        os.makedirs(d, exist_ok=True)
        return d, cppkit.build(r, d, desc, rust, write(d + "/main.cpp", CPP), defs=["%s=%d" % (k, v) for k, v in F.items()])
    j = JAVA
    for k, v in F.items():
        if v:
            j = j.replace("//%s " % k, "")
    return d, jkit.build(r, d, desc, rust, {"org/fg/Main.java": j}, edition="2018" if dyn else "2021")   # the generated `Box<Tr>` lacks `dyn`


def worlds():
    for lang in ("cpp", "java"):
        for s, dyn in storages():
            if dyn and lang == "java" and s != (B, B):
                continue
            for fallible in ((0, 1) if lang == "java" else (0,)):
                for shared in ((0, 1) if s and s[0] in (RC, ARC) else (0,)):
                    yield lang, s, dyn, fallible, shared


def check(r):
    S = json.load(open(os.path.join(VERIF, "mc/specs/p13_skip.json")))
    ws = [(w, [m[0] for m in METHODS if m[0] not in S.get(key(*w), [])]) for w in worlds()]
    ws = [(w, ms) for w, ms in ws if ms]
    if not r.thorough:
        ws = [(w, ms) for w, ms in ws if w[0] == "cpp" or not w[3] or len(w[1]) < 2 or w[1] in ((RC, REF), (ARC, MTX))]

    def one(x):
        w, ms = x
        d, b = build(r, *w, ms)
        p = None
        if not b.problem:
            depth = "4" if r.thorough and w[0] == "cpp" else "3" if r.thorough or len(w[1]) < 3 and w[0] == "cpp" else "2"
            try:
                p = run(([b.exe] if w[0] == "cpp" else b.cmd("org.fg.Main")) + [depth], timeout=3000 if r.thorough else 300, env=env(**cppkit.SAN_ENV))
            except Exception as e:
                p = e
            shutil.rmtree(d, ignore_errors=True)
        return w, b, p
    for w, b, p in pmap(one, ws):
        k = key(*w)
        if b.problem:
            r.violation("%s/%s" % (k, b.kind), "%s: %s" % (k, b.problem))
            continue
        if isinstance(p, Exception):
            r.violation(k + "/hang", "%s: a call never returned (%s)" % (k, str(p)[:200]))
            continue
        done = False
        for l in p.stdout.splitlines():
            f = l.split("\t")
            if f[0] == "VIOL":
                r.violation("%s/%s" % (k, f[1]), "%s: %s\nhistory: %s" % (k, f[2], f[3]))
            elif f[0] == "STATE":
                r.state((k, f[1]))
            elif f[0] == "SAMPLE":
                r.sample("%s: %s" % (k, f[1]))
            elif f[0] == "STATS":
                done = True
                r.transitions += int(f[2].split("=")[1])
                r.traces += int(f[3].split("=")[1])
        if not done:
            r.violation(k + "/crash", "%s: the program died (%d): %s" % (k, p.returncode, (p.stderr or p.stdout)[-1500:]))
    r.extra["storages"] = len({w[:3] for w, _ in ws})
    r.extra["methods"] = sum(len(ms) for _, ms in ws)


if __name__ == "__main__":
    os.environ.setdefault("VERIF_TIER", "quick")
    r = Report("P13survey")
    build_driver()

    def one(x):
        w, m = x
        d, b = build(r, *w, m)
        shutil.rmtree(d, ignore_errors=True)
        return w, m[0], b
    skip, why = {}, {}
    bad = [w for w, m, b in pmap(one, [(w, [m[0] for m in METHODS]) for w in worlds()]) if b.problem]
    print("not complete:", len(bad))
    for w, m, b in pmap(one, [(w, [m[0]]) for w in bad for m in METHODS]):
        if b.problem:
            skip.setdefault(key(*w), []).append(m)
            why.setdefault((b.kind, b.problem[-160:]) if b.kind != "refused" else "refused", []).append(key(*w) + ":" + m)
    json.dump(skip, open("/tmp/p13_skip.json", "w"), indent=0)
    for k, v in why.items():
        print(k, len(v), v[:6])
