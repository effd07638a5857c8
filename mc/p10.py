"""P10: Java callbacks. Every type and value as argument and result from JVM and native threads; histories of
registering, calling, throwing, nesting, moving and dropping in lock step with a call-log model."""
import json, os, shutil
from common import *
import jkit, jvals
from p08 import absorb

LEVEL = "model_checking"
ASSUMPTIONS = ["integers, floats and strings by boundary values", "one call at a time (a callback is Send, not Sync); native threads are created by Rust and unknown to the JVM"]
MODES = 4      # direct, moved to a new thread, on one long-lived thread, two calls on a new thread


THREADS = r'''
pub mod thr {
  use std::sync::{Mutex, mpsc};
  pub struct F(pub Box<dyn FnOnce()>);
  unsafe impl Send for F {}
  static WORKER: Mutex<Option<mpsc::Sender<(F, mpsc::Sender<()>)>>> = Mutex::new(None);
  /// 0: here, 1 and 3: on a new thread, 2: on one long-lived thread
  pub fn on(mode: u32, f: Box<dyn FnOnce()>) {
    match mode {
      0 => f(),
      2 => {
        let tx = { let mut w = WORKER.lock().unwrap(); w.get_or_insert_with(|| { let (tx, rx) = mpsc::channel::<(F, mpsc::Sender<()>)>(); std::thread::spawn(move || for (f, d) in rx { (f.0)(); d.send(()).unwrap(); }); tx }).clone() };
        let (dtx, drx) = mpsc::channel(); tx.send((F(f), dtx)).unwrap(); drx.recv().expect("the worker died");
      }
      _ => { let f = F(f); std::thread::spawn(move || { let f = f; (f.0)() }).join().expect("the thread died"); }
    }
  }
}
'''


def program(ts):
    D, R, J, CB, K, mk = [], [], [], [], [], []
    for t in ts:
        n = t.name
        arg, ret = t.out, t.inp and t.cbret
        if arg:
            CB.append("foreign_callback!(callback Cb_%s { self_type Tr_%s; one_%s = Tr_%s::one(&self, x: %s); mid_%s = Tr_%s::mid(&self, p: u8, x: %s, q: f32, b: bool, z: i64); last = Tr_%s::last(&mut self, z: i8, y: %s, x: %s) -> i32; });\n" % (n, n, n, n, t.rs, n, n, t.rs, n, t.rs, t.rs))
            R.append("pub trait Tr_%s { fn one(&self, x: %s); fn mid(&self, p: u8, x: %s, q: f32, b: bool, z: i64); fn last(&mut self, z: i8, y: %s, x: %s) -> i32; }" % (n, t.rs, t.rs, t.rs, t.rs))
            R.append("pub fn v_%s(k: usize) -> %s { match k %% %d { %s _ => panic!() } }" % (n, t.ret, len(t.outv), " ".join("%d => %s," % (k, v.rs) for k, v in enumerate(t.outv))))
            R.append("pub fn g_%s(mut cb: Box<dyn Tr_%s>, k: u32, mode: u32) -> i32 { let k = k as usize; let r = std::rc::Rc::new(std::cell::Cell::new(0)); let r2 = r.clone(); thr::on(mode, Box::new(move || { cb.one(v_%s(k)); cb.mid((k as u8).wrapping_add(250), v_%s(k), 1.5, true, -5000000000 - k as i64); r2.set(cb.last(-128, v_%s(k + 1), v_%s(k))); if mode == 3 { cb.one(v_%s(k)); } })); r.get() }" % ((n,) * 7))
            D.append("fn w::g_%s(cb: Box<dyn Tr_%s>, k: u32, mode: u32) -> i32;" % (n, n))
            mk.append("class M_%s { static final String[] o = {%s}; }\n" % (n, ", ".join('"%s"' % v.ser for v in t.outv)))
            K.append('class C_%s implements Cb_%s { public void one_%s(%s x) { Main.log("1:" + %s); } public void mid_%s(short p, %s x, float q, boolean b, long z) { Main.log("2:" + p + "," + %s + "," + q + "," + b + "," + z); } public int last(byte z, %s y, %s x) { Main.log("3:" + z + "," + %s + "," + %s); return 1000 + z; } }\n' % (
                n, n, n, t.jout, t.ser % "x", n, t.jout, t.ser % "x", t.jout, t.jout, t.ser % "y", t.ser % "x"))
            J.append('for (int k = 0; k < %d; ++k) for (int m = 0; m < 4; ++m) { Main.start(); int q = W.g_%s(new C_%s(), k, m); String a = M_%s.o[k], b = M_%s.o[(k + 1) %% %d]; S.chk("callback_arg/%s/mode" + m, k, Main.got() + q, "1:" + a + ";2:" + ((k + 250) & 255) + "," + a + ",1.5,true," + (-5000000000L - k) + ";3:-128," + b + "," + a + ";" + (m == 3 ? "1:" + a + ";" : "") + "872"); }' % (len(t.outv), n, n, n, n, len(t.outv), n))
        if ret:
            CB.append("foreign_callback!(callback Rb_%s { self_type Rt_%s; get = Rt_%s::get(&self, k: i32) -> %s; put = Rt_%s::put(&mut self, z: i64, k: i32) -> %s; });\n" % (n, n, n, t.rs, n, t.rs))
            R.append("pub trait Rt_%s { fn get(&self, k: i32) -> %s; fn put(&mut self, z: i64, k: i32) -> %s; }" % (n, t.rs, t.rs))
            R.append("pub fn h_%s(mut cb: Box<dyn Rt_%s>, k: u32, mode: u32) -> String { let r = std::rc::Rc::new(std::cell::RefCell::new(String::new())); let r2 = r.clone(); thr::on(mode, Box::new(move || { let a = cb.get(k as i32).ser(); let b = cb.put(-1 << 40, k as i32).ser(); *r2.borrow_mut() = a + &b; if mode == 3 { r2.borrow_mut().push_str(&cb.get(k as i32).ser()); } })); let x = r.borrow().clone(); x }" % (n, n))
            D.append("fn w::h_%s(cb: Box<dyn Rt_%s>, k: u32, mode: u32) -> String;" % (n, n))
            mk.append("class X_%s { static final String[] x = {%s};\nstatic %s mk(int k) { switch (k) { %s default: throw new Error(); } } }\n" % (n, ", ".join('"%s"' % v.ser for v in t.v), t.jin, " ".join("case %d: return %s;" % (k, v.j) for k, v in enumerate(t.v))))
            K.append("class G_%s implements Rb_%s { public %s get(int k) { return X_%s.mk(k); } public %s put(long z, int k) { if (z != -1L << 40) throw new Error(); return X_%s.mk(k); } }\n" % (n, n, t.jin, n, t.jin, n))
            J.append('for (int k = 0; k < %d; ++k) for (int m = 0; m < 4; ++m) { String a = X_%s.x[k]; S.chk("callback_ret/%s/mode" + m, k, W.h_%s(new G_%s(), k, m), a + a + (m == 3 ? a : "")); }' % (len(t.v), n, n, n, n))
    desc = jvals.DESC + "".join(CB) + "foreign_class!(class W {\n%s\n});\n" % "\n".join(D)
    rust = jvals.RUST + THREADS + "#[allow(non_camel_case_types, non_snake_case)] pub mod w { use super::*;\n%s\n}\n#[allow(unused_imports)] use w::*;\n" % "\n".join(R)
    fs = ["static void f%d() throws Throwable {\n%s\n}\n" % (i, "\n".join(J[i:i + 20])) for i in range(0, len(J), 20)]
    main = "package org.fg;\npublic class Main {\nstatic StringBuilder sb = new StringBuilder(); static synchronized void log(String s) { sb.append(s).append(\";\"); } static void start() { sb.setLength(0); } static synchronized String got() { return sb.toString(); }\n%s\npublic static void main(String[] a) throws Throwable { System.load(System.getProperty(\"fg.lib\"));\n%s S.done(); System.out.flush(); Runtime.getRuntime().halt(0); }\n}\n%s%s" % (
        "".join(fs), "".join("f%d();\n" % i for i in range(0, len(J), 20)), "".join(mk), "".join(K))
    return desc, rust, {"org/fg/Main.java": main, "org/fg/S.java": jvals.S_JAVA}


def long_program():
    """argument lists, many methods of one signature, one object behind two interfaces, lambdas, inheritance"""
    import itertools
    kinds = [("i8", "byte", "-5"), ("u8", "short", "250"), ("i16", "short", "-300"), ("u16", "int", "65000"), ("i32", "int", "-70000"), ("u32", "long", "4000000000"), ("i64", "long", "-5000000000"), ("f32", "float", "1.5"), ("f64", "double", "-2.25"), ("bool", "boolean", "true"), ("&str", "String", '"x"')]
    sig = []
    for n in list(range(0, 14)) + [17, 26]:
        for off in range(0, len(kinds), 1 if n < 4 else 3):
            sig.append([(off + 5 * i + (i * i) % 3) % len(kinds) for i in range(n)])
    cb, tr, go, jm, exp = [], [], [], [], []
    for k, s in enumerate(sig):
        a = ", ".join("x%d: %s" % (i, kinds[q][0]) for i, q in enumerate(s))
        vals = []
        for i, q in enumerate(s):
            rs, jt, v = kinds[q]
            v = str(i * 3 - 100) if rs == "i8" else str(100 + i) if rs == "u8" else str(i - 30000) if rs == "i16" else str(40000 + i) if rs == "u16" else str(-70000 - i) if rs == "i32" else str(4000000000 + i) if rs == "u32" else str(-5000000000 - i) if rs == "i64" else "%d.5" % i if rs in ("f32", "f64") else ("true" if i % 2 else "false") if rs == "bool" else '"s%d"' % i
            vals.append(v)
        cb.append("ev%d = Big::ev%d(&%sself%s)%s;" % (k, k, "mut " if k % 3 == 0 else "", ", " + a if a else "", " -> i32" if k % 2 else ""))
        tr.append("fn ev%d(&%sself%s)%s;" % (k, "mut " if k % 3 == 0 else "", ", " + a if a else "", " -> i32" if k % 2 else ""))
        go.append("%s cb.ev%d(%s);" % ("r +=" if k % 2 else "", k, ", ".join(vals)))
        jm.append('public %s ev%d(%s) { Main.log("%d:"%s); %s }' % ("int" if k % 2 else "void", k, ", ".join("%s x%d" % (kinds[q][1], i) for i, q in enumerate(s)), k, "".join(' + x%d + ","' % i for i in range(len(s))), "return %d;" % k if k % 2 else ""))
        exp.append("%d:%s;" % (k, "".join(v.strip('"') + "," for v in vals)))
    total = sum(k for k in range(len(sig)) if k % 2)
    desc = jvals.DESC + "foreign_callback!(callback Big { self_type Big; %s });\n" % " ".join(cb)
    # twelve methods of one signature, described in another order and under other names than in the trait
    perm = [(5 * i + 3) % 12 for i in range(12)]
    desc += "foreign_callback!(callback Many { self_type ManyT; %s });\n" % " ".join("j%d = ManyT::t%d(&self, x: i32) -> i32;" % (i, i) for i in perm)
    desc += "foreign_callback!(callback OneA { self_type OneAT; run = OneAT::run(&self, x: i32) -> i32; });\nforeign_callback!(callback OneB { self_type OneBT; run = OneBT::run(&self, x: i32) -> i32; stop = OneBT::run2(&self, x: i64) -> i64; });\n"
    desc += "foreign_class!(class W { fn w::big(cb: Box<dyn Big>, mode: u32) -> i32; fn w::many(cb: Box<dyn ManyT>, mode: u32) -> String; fn w::one_a(cb: Box<dyn OneAT>, mode: u32) -> i32; fn w::one_b(cb: Box<dyn OneBT>, mode: u32) -> i64; fn w::four(a: Box<dyn OneAT>, b: Box<dyn OneBT>, x: i32, c: Box<dyn OneAT>, d: Box<dyn OneBT>) -> String; });\n"
    R = "pub trait Big { %s }\npub trait ManyT { %s }\npub trait OneAT { fn run(&self, x: i32) -> i32; }\npub trait OneBT { fn run(&self, x: i32) -> i32; fn run2(&self, x: i64) -> i64; }\n" % (" ".join(tr), " ".join("fn t%d(&self, x: i32) -> i32;" % i for i in range(12)))
    cell = "let r0 = std::rc::Rc::new(std::cell::RefCell::new(Default::default())); let r1 = r0.clone(); thr::on(mode, Box::new(move || { %s *r1.borrow_mut() = r; })); let x = r0.borrow().clone(); x"
    R += "pub fn big(mut cb: Box<dyn Big>, mode: u32) -> i32 { %s }\n" % (cell % ("let mut r = 0; " + " ".join(go)))
    R += "pub fn many(cb: Box<dyn ManyT>, mode: u32) -> String { %s }\n" % (cell % ("let mut r = String::new(); " + " ".join('r += &format!("{},", cb.t%d(%d));' % (i, 100 * i) for i in range(12))))
    R += "pub fn one_a(cb: Box<dyn OneAT>, mode: u32) -> i32 { %s }\npub fn one_b(cb: Box<dyn OneBT>, mode: u32) -> i64 { %s }\n" % (cell % "let r = cb.run(7);", cell % "let r = cb.run(9) as i64 + cb.run2(1 << 40);")
    R += 'pub fn four(a: Box<dyn OneAT>, b: Box<dyn OneBT>, x: i32, c: Box<dyn OneAT>, d: Box<dyn OneBT>) -> String { format!("{},{},{},{},{}", a.run(x), b.run(x), c.run(x), d.run(x), d.run2(x as i64)) }\n'
    rust = jvals.RUST + THREADS + "pub mod w { use super::*;\n%s}\nuse w::*;\n" % R
    main = """package org.fg;
public class Main {
  static StringBuilder sb = new StringBuilder(); static synchronized void log(String s) { sb.append(s).append(";"); }
  static class B implements Big { %s }
  static class M implements Many { %s }
  static class M2 extends M { public int j4(int x) { return x + 44; } }
  static class Both implements OneA, OneB { final int k; Both(int k) { this.k = k; } public int run(int x) { return x * 10 + k; } public long stop(long x) { return x + k; } }
  enum Sing implements OneA { ONLY { public int run(int x) { return x - 1; } } }
  public static void main(String[] a) throws Throwable {
    System.load(System.getProperty("fg.lib"));
    String want = String.join("", %s);
    for (int m = 0; m < 3; ++m) {
      sb.setLength(0);
      int q = W.big(new B(), m);
      String[] g = sb.toString().split(";"), w = want.split(";");
      for (int i = 0; i < w.length; ++i) S.chk("argument_list/" + i + "/mode" + m, i, i < g.length ? g[i] : "not called", w[i]);
      S.chk("results/mode" + m, 0, g.length + "," + q, w.length + ",%d");
      S.chk("many_methods/mode" + m, 0, W.many(new M(), m), "%s");
      S.chk("inherited/mode" + m, 0, W.many(new M2(), m), "%s");
      S.chk("lambda/mode" + m, 0, "" + W.one_a(x -> x + 1, m), "8");
      S.chk("enum/mode" + m, 0, "" + W.one_a(Sing.ONLY, m), "6");
      Both o = new Both(3);
      S.chk("two_interfaces/mode" + m, 0, W.one_a(o, m) + "," + W.one_b(o, m), "73," + (93 + (1L << 40) + 3));
      S.chk("anonymous/mode" + m, 0, "" + W.one_b(new OneB() { public int run(int x) { return -x; } public long stop(long x) { return 2 * x; } }, m), "" + (-9 + (2L << 40)));
    }
    S.chk("four_callbacks", 0, W.four(new Both(1), new Both(2), 5, x -> x, new Both(4)), "51,52,5,54,9");
    S.done(); System.out.flush(); Runtime.getRuntime().halt(0);
  }
}
""" % ("\n    ".join(jm), " ".join("public int j%d(int x) { return x + %d; }" % (i, i) for i in range(12)), ",\n ".join('"%s"' % e for e in exp), total,
       "".join("%d," % (100 * i + i) for i in range(12)), "".join("%d," % (100 * i + (44 if i == 4 else i)) for i in range(12)))
    return desc, rust, {"org/fg/Main.java": main, "org/fg/S.java": jvals.S_JAVA}


# ---- histories
HDESC = r'''
foreign_callback!(callback Cb { self_type Tr; ping = Tr::ping(&self); text = Tr::text(&self, a: i32, s: &str); both = Tr::both(&mut self, s: &str, a: i64, b: bool); sum = Tr::sum(&self, a: i32, b: i32) -> i32; flag = Tr::flag(&self, x: u8) -> bool; num = Tr::num(&self, x: f32) -> f64; wide = Tr::wide(&mut self, x: i64) -> i64; });
foreign_class!(class Keeper { self_type Keeper; constructor Keeper::new(cb: Box<dyn Tr>) -> Keeper; fn Keeper::call(&mut self, m: u32, mode: u32) -> f64; });
foreign_class!(class W { fn w::reg(s: u32, cb: Box<dyn Tr>); fn w::call(s: u32, m: u32, mode: u32, times: u32) -> f64; fn w::mv(s: u32, t: u32); fn w::free(s: u32, mode: u32); });
'''
HRUST = r'''
use std::sync::{Arc, Mutex};
pub trait Tr { fn ping(&self); fn text(&self, a: i32, s: &str); fn both(&mut self, s: &str, a: i64, b: bool); fn sum(&self, a: i32, b: i32) -> i32; fn flag(&self, x: u8) -> bool; fn num(&self, x: f32) -> f64; fn wide(&mut self, x: i64) -> i64; }
pub struct Own(std::cell::UnsafeCell<Box<dyn Tr>>);
unsafe impl Send for Own {} unsafe impl Sync for Own {}
static SLOTS: Mutex<[Option<Arc<Own>>; 3]> = Mutex::new([None, None, None]);
fn dispatch(cb: &mut dyn Tr, m: u32) -> f64 { match m { 0 => { cb.ping(); -1.0 } 1 => { cb.text(-70000, "t\u{1f600}"); -1.0 } 2 => { cb.both("", -5000000000, true); -1.0 } 3 => cb.sum(30, 12) as f64, 4 => if cb.flag(255) { 1.0 } else { 0.0 }, 5 => cb.num(0.5), _ => cb.wide(1 << 40) as f64 } }
fn at(s: u32) -> Arc<Own> { SLOTS.lock().unwrap()[s as usize].clone().unwrap() }
pub struct Keeper(Box<dyn Tr>);
struct P(*mut Box<dyn Tr>);
impl Keeper { pub fn new(cb: Box<dyn Tr>) -> Keeper { Keeper(cb) } pub fn call(&mut self, m: u32, mode: u32) -> f64 { let p = P(&mut self.0); let r = std::rc::Rc::new(std::cell::Cell::new(0.0)); let r2 = r.clone(); thr::on(mode, Box::new(move || { let p = p; r2.set(dispatch(unsafe { &mut **p.0 }, m)) })); r.get() } }
pub mod w { use super::*;
  pub fn reg(s: u32, cb: Box<dyn Tr>) { let o = SLOTS.lock().unwrap()[s as usize].replace(Arc::new(Own(std::cell::UnsafeCell::new(cb)))); drop(o); }
  pub fn call(s: u32, m: u32, mode: u32, times: u32) -> f64 { let o = at(s); let r = std::rc::Rc::new(std::cell::Cell::new(0.0)); let r2 = r.clone(); thr::on(mode, Box::new(move || { for _ in 0..times { r2.set(dispatch(unsafe { &mut **o.0.get() }, m)); } drop(o); })); r.get() }
  pub fn mv(s: u32, t: u32) { let o = { let mut x = SLOTS.lock().unwrap(); let v = x[s as usize].take(); std::mem::replace(&mut x[t as usize], v) }; drop(o); }
  pub fn free(s: u32, mode: u32) { let o = SLOTS.lock().unwrap()[s as usize].take(); thr::on(mode, Box::new(move || drop(o))); }
}
'''
HJAVA = r'''package org.fg;
import java.util.*;
import java.lang.ref.WeakReference;
public class Main {
  static final int NS = 2;
  static final Thread main = Thread.currentThread();
  static List<String> log = Collections.synchronizedList(new ArrayList<>());
  static long steps, seqs; static int viols;
  // what the next call of object o does: null, "throw", "error", "checked", "nest t", "drop", "rereg"
  static volatile String plan; static volatile int planFor = -1;
  static <T extends Throwable> void sneaky(Throwable t) throws T { throw (T) t; }
  static final class C implements Cb {
    final int id; C(int id) { this.id = id; }
    void in(String what) {
      log.add(id + ":" + what + ":" + (Thread.currentThread() == main ? "J" : "N"));
      String p = plan;
      if (p == null || planFor != id) return;
      plan = null;
      String[] f = p.split(" ");
      switch (f[0]) {
        case "throw": throw new IllegalStateException("from callback " + id);
        case "error": throw new AssertionError("error");
        case "checked": Main.<RuntimeException>sneaky(new java.io.IOException("io")); break;
        case "nest": { double r = W.call(Integer.parseInt(f[1]), Integer.parseInt(f[2]), Integer.parseInt(f[3]), 1); log.add(id + ":nested=" + r); break; }
        case "nestthrow": { plan = "throw"; planFor = Integer.parseInt(f[4]); W.call(Integer.parseInt(f[1]), Integer.parseInt(f[2]), Integer.parseInt(f[3]), 1); log.add(id + ":after"); break; }
        case "drop": W.free(Integer.parseInt(f[1]), Integer.parseInt(f[2])); break;
        case "gc": System.gc(); break;
      }
    }
    public void ping() { in("ping"); }
    public void text(int a, String s) { in("text," + a + "," + s); }
    public void both(String s, long a, boolean b) { in("both," + s + "," + a + "," + b); }
    public int sum(int a, int b) { in("sum," + a + "," + b); return a + b + id * 1000; }
    public boolean flag(short x) { in("flag," + x); return id % 2 == 1; }
    public double num(float x) { in("num," + x); return x + id; }
    public long wide(long x) { in("wide," + x); return x + id; }
  }
  static final String[] NAME = {"ping", "text,-70000,t\ud83d\ude00", "both,,-5000000000,true", "sum,30,12", "flag,255", "num,0.5", "wide,1099511627776"};
  static double value(int id, int m) { switch (m) { case 3: return 42 + id * 1000; case 4: return id % 2; case 5: return 0.5 + id; case 6: return (double) ((1L << 40) + id); default: return -1; } }
  // ---- model
  static int[] slot; static int born; static int keeper; static Keeper kept; static List<WeakReference<C>> weak; static BitSet dead;
  static void fresh() { for (int s = 0; s < NS; ++s) W.free(s, 0); if (kept != null) { kept.delete(); kept = null; } slot = new int[]{-1, -1}; keeper = -1; born = 0; plan = null; planFor = -1; log.clear(); }
  static final ArrayList<WeakReference<C>> pendingDead = new ArrayList<>();
  static HashMap<Integer, WeakReference<C>> refs = new HashMap<>();
  static C make() { C c = new C(born); refs.put(born, new WeakReference<>(c)); born++; return c; }
  static void end(int id) { if (id < 0) return; for (int s : slot) if (s == id) return; if (keeper == id) return; pendingDead.add(refs.get(id)); }
  static List<String> ops() {
    ArrayList<String> o = new ArrayList<>();
    for (int s = 0; s < NS; ++s) {
      o.add("reg " + s);
      if (slot[s] < 0) continue;
      for (int md = 0; md < 3; ++md) o.add("free " + s + " " + md);
      o.add("mv " + s + " " + (1 - s));
      for (int m = 0; m < 7; ++m) for (int md = 0; md < 4; ++md) o.add("call " + s + " " + m + " " + md);
      for (int m = 0; m < 7; ++m) for (int md = 0; md < 3; ++md) for (String e : new String[]{"throw", "error", "checked"}) if (m % 3 == 0 || e == "throw") o.add("fail " + s + " " + m + " " + md + " " + e);
      for (int t = 0; t < NS; ++t) if (slot[t] >= 0) for (int md = 0; md < 3; ++md) for (int m2 = 1; m2 < 7; m2 += 2) { if (md != 2 || true) for (int md2 = 0; md2 < 2; ++md2) { o.add("nest " + s + " " + (m2 + 2) % 7 + " " + md + " " + t + " " + m2 + " " + md2); if (t != s) o.add("nestthrow " + s + " " + (m2 + 2) % 7 + " " + md + " " + t + " " + m2 + " " + md2); } }
      for (int md = 0; md < 2; ++md) { o.add("drop_inside " + s + " " + md); o.add("gc_inside " + s + " " + md); }
    }
    o.add("keep");
    if (keeper >= 0) { o.add("unkeep"); for (int m = 0; m < 7; ++m) for (int md = 0; md < 3; ++md) o.add("kcall " + m + " " + md); }
    return o;
  }
  static String fails;
  static void eq(Object got, Object want, String what) { if (!Objects.equals(got, want)) throw new RuntimeException(what + ": " + got + ", expected " + want); }
  static int I(String s) { return Integer.parseInt(s); }
  static String th(int md) { return md == 0 ? "J" : "N"; }
  static void step(String op) {
    String[] f = op.split(" ");
    log.clear();
    List<String> want = new ArrayList<>();
    int id = f.length > 1 && !f[0].equals("kcall") ? slot[I(f[1])] : keeper;
    switch (f[0]) {
      case "reg": { int old = slot[I(f[1])]; slot[I(f[1])] = born; W.reg(I(f[1]), make()); end(old); break; }
      case "free": W.free(I(f[1]), I(f[2])); slot[I(f[1])] = -1; end(id); break;
      case "mv": { int old = slot[I(f[2])]; W.mv(I(f[1]), I(f[2])); slot[I(f[2])] = id; slot[I(f[1])] = -1; end(old); break; }
      case "keep": { if (kept != null) { int old = keeper; kept.delete(); keeper = -1; end(old); } keeper = born; kept = new Keeper(make()); break; }
      case "unkeep": { int old = keeper; kept.delete(); kept = null; keeper = -1; end(old); break; }
      case "kcall": { int m = I(f[1]), md = I(f[2]); eq(kept.call(m, md), value(id, m), "result"); want.add(id + ":" + NAME[m] + ":" + th(md)); break; }
      case "call": { int m = I(f[2]), md = I(f[3]); int n = md == 3 ? 3 : 1; eq(W.call(I(f[1]), m, md, n), value(id, m), "result"); for (int i = 0; i < n; ++i) want.add(id + ":" + NAME[m] + ":" + th(md)); break; }
      case "fail": { int m = I(f[2]), md = I(f[3]); planFor = id; plan = f[4]; W.call(I(f[1]), m, md, 1); want.add(id + ":" + NAME[m] + ":" + th(md));
        // and the next call is a normal one, on the same thread and on others
        eq(W.call(I(f[1]), m, md, 1), value(id, m), "result after an exception"); want.add(id + ":" + NAME[m] + ":" + th(md)); eq(W.call(I(f[1]), 3, 0, 1), value(id, 3), "result after an exception"); want.add(id + ":" + NAME[3] + ":J"); break; }
      case "nest": case "nestthrow": { int m = I(f[2]), md = I(f[3]), t = I(f[4]), m2 = I(f[5]), md2 = I(f[6]); boolean ex = f[0].equals("nestthrow"); planFor = id; plan = (ex ? "nestthrow " : "nest ") + t + " " + m2 + " " + md2 + (ex ? " " + slot[t] : "");
        double r = W.call(I(f[1]), m, md, 1); eq(r, value(id, m), "result of the outer call"); want.add(id + ":" + NAME[m] + ":" + th(md)); want.add(slot[t] + ":" + NAME[m2] + ":" + (md2 == 0 ? th(md) : "N")); want.add(ex ? id + ":after" : id + ":nested=" + value(slot[t], m2)); break; }
      case "drop_inside": { int md = I(f[2]); planFor = id; plan = "drop " + f[1] + " 0"; eq(W.call(I(f[1]), 3, md, 1), value(id, 3), "result"); want.add(id + ":" + NAME[3] + ":" + th(md)); slot[I(f[1])] = -1; end(id); break; }
      case "gc_inside": { int md = I(f[2]); planFor = id; plan = "gc"; eq(W.call(I(f[1]), 3, md, 1), value(id, 3), "result"); want.add(id + ":" + NAME[3] + ":" + th(md)); break; }
    }
    eq(new ArrayList<>(log), want, "calls");
    ++steps;
  }
  static String canon() { int[] m = new int[64]; Arrays.fill(m, -1); int[] n = {0}; StringBuilder b = new StringBuilder(); for (int s : slot) b.append(s < 0 ? "-" : "x").append(s < 0 ? "" : s % 2); b.append("|").append(keeper < 0 ? "-" : "x" + keeper % 2); return b.toString(); }
  static boolean run(List<String> p) {
    fresh(); ++seqs;
    int i = 0;
    try { for (; i < p.size(); ++i) step(p.get(i)); return true; }
    catch (Throwable e) { if (++viols < 15) System.out.println("VIOL\t" + p.get(i).split(" ")[0] + "\t" + (e.getMessage() == null ? e.toString() : (e.getClass() == RuntimeException.class ? "" : e.getClass() + ": ") + e.getMessage()).replace("\t", " ").replace("\n", "\\n") + "\t" + String.join("; ", p.subList(0, i + 1))); return false; }
  }
  static void collect(String when) {
    fresh();
    refs.clear();
    for (int k = 0; k < 20; ++k) { System.gc(); int left = 0; for (WeakReference<C> w : pendingDead) if (w.get() != null) ++left; if (left == 0) { pendingDead.clear(); return; } try { Thread.sleep(5); } catch (InterruptedException e) {} }
    int left = 0; for (WeakReference<C> w : pendingDead) if (w.get() != null) ++left;
    if (++viols < 15) System.out.println("VIOL\tcollectable\t" + left + " of " + pendingDead.size() + " callback objects dropped by Rust are not collectable\t" + when);
    pendingDead.clear();
  }
  static void deep(ArrayList<String> p, int d) {
    if (!run(p)) return;
    if (d == 0) return;
    List<String> o = ops();
    for (String x : o) { p.add(x); deep(p, d - 1); p.remove(p.size() - 1); if (pendingDead.size() > 400) collect(String.join("; ", p)); }
  }
  public static void main(String[] a) throws Throwable {
    System.load(System.getProperty("fg.lib"));
    LinkedHashMap<String, List<String>> seen = new LinkedHashMap<>();
    ArrayDeque<List<String>> todo = new ArrayDeque<>();
    fresh(); seen.put(canon(), new ArrayList<>()); todo.add(new ArrayList<>());
    List<String> lastp = null;
    while (!todo.isEmpty()) {
      List<String> p = todo.poll();
      run(p);
      for (String x : ops()) {
        ArrayList<String> q = new ArrayList<>(p); q.add(x);
        if (!run(q)) continue;
        String c = canon();
        if (!seen.containsKey(c)) { seen.put(c, q); todo.add(q); lastp = q; System.out.println("STATE\t" + c); }
        if (pendingDead.size() > 400) { collect(String.join("; ", q)); }
      }
      collect(String.join("; ", p));
    }
    deep(new ArrayList<>(), Integer.parseInt(a[0]));
    collect("end");
    System.out.println("SAMPLE\t" + String.join("; ", lastp));
    System.out.println("STATS\thistories\tsteps=" + steps + "\tseq=" + seqs);
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }
}
'''


def use_types():
    T = jvals.types()
    S = json.load(open(os.path.join(VERIF, "mc/specs/p10_skip.json")))
    out = []
    for n, t in T.items():
        t.out, t.cbret = t.out and n + "/arg" not in S, n + "/ret" not in S
        if t.out or (t.inp and t.cbret):
            out.append(t)
    return out


def check(r):
    use = use_types()
    size = 10
    jobs = [("history", HDESC, THREADS + HRUST, {"org/fg/Main.java": HJAVA}, ["3" if r.thorough else "2"], 3000 if r.thorough else 800, {})]
    jobs.append(("arguments",) + long_program() + ([], 600, {}))
    for cn, cfg in (("", {}), ("null", {"null_pkg": "fg.anno"})):
        for i in range(0, len(use), size):
            if cn and not r.thorough and i % (3 * size):
                continue
            jobs.append(("values%s#%d" % (cn, i),) + program(use[i:i + size]) + ([], 600, cfg))

    def one(j):
        name, desc, rust, java, args, tmo, cfg = j
        d = os.path.join(r.work, re.sub(r"\W", "_", name))
        b = jkit.build(r, d, desc, rust, java, cfg)
        p = None if b.problem else run(b.cmd("org.fg.Main", *args), timeout=tmo)
        if not b.problem:
            shutil.rmtree(d, ignore_errors=True)
        return name, b, p
    for name, b, p in pmap(one, jobs):
        if b.problem:
            r.violation("%s/%s" % (name.split("#")[0], b.kind), "%s: %s" % (name, b.problem))
        else:
            absorb(r, name, p)
    for t in use:
        for what, vs in (("arg", t.outv if t.out else []), ("ret", t.v if t.cbret and t.inp else [])):
            for v in vs:
                for m in range(MODES):
                    r.state((what, t.name, v.rs, m))
    r.extra["types"] = len(use)


if __name__ == "__main__":
    os.environ.setdefault("VERIF_TIER", "quick")
    r = Report("P10survey")
    build_driver()
    T = jvals.types()
    skip = {}

    def one(x):
        n, what = x
        t = jvals.types()[n]
        t.out, t.cbret = what == "arg", what == "ret"
        d = os.path.join(r.work, "sv_%s_%s" % x)
        b = jkit.build(r, d, *program([t]))
        res = {}
        if b.problem:
            res["%s/%s" % x] = (b.kind, t.rs, b.problem[:400])
        else:
            p = run(b.cmd("org.fg.Main"), timeout=100)
            if "VIOL" in p.stdout or "STATS" not in p.stdout:
                print("RUN", x, t.rs, p.stdout[:600], p.stderr[-600:], flush=True)
        shutil.rmtree(d, ignore_errors=True)
        return res
    for x in pmap(one, [(n, w) for n, t in T.items() for w, ok in (("arg", t.out), ("ret", t.inp)) if ok]):
        skip.update(x)
    json.dump(dict(sorted(skip.items())), open("/tmp/p10_skip.json", "w"), indent=0)
    print(len(T), len(skip))
