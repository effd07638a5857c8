"""Types, values and spellings of the Java value matrix (P08, P10, P13, P18)."""
from vals import STRS, rs_str, ser_str


class V:
    __slots__ = ("rs", "j", "ser")

    def __init__(self, rs, j, ser):
        self.rs, self.j, self.ser = rs, j, ser


class Ty:
    def __init__(self, name, rs, jin, vals, ret=None, inp=True, out=True, jout=None, outv=None, ser="S.ser(%s)", throws=False):
        self.name, self.rs, self.jin, self.v, self.ret, self.inp, self.out = name, rs, jin, vals, ret or rs, inp, out
        self.jout, self.outv, self.ser, self.throws = jout or jin, outv or vals, ser, throws


def j_str(s):
    u = s.encode("utf-16-be")
    cs = [(u[i] << 8) | u[i + 1] for i in range(0, len(u), 2)]
    return '"' + "".join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\' else "\\" + chr(c) if c in (34, 92) else "\\n" if c == 10 else "\\r" if c == 13 else "\\u%04x" % c for c in cs) + '"'


JSTRS = STRS + ["quote\"back\\slash\n\t\r", "\U0010ffff\U00010000", "\u0001\u007f\u0080\u07ff\u0800\uffff"]


def ints(rs, bits, signed, jt, hi=None):
    lo, h = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    h = min(h, hi or h)
    xs = sorted({0, 1, lo, h, h - 1} | ({-1, lo + 1} if signed else set()) | {(1 << k) + d for k in (7, 8, 15, 16, 31, 32) for d in (-1, 0) if (1 << k) + d <= h})

    def lit(x):
        return "(%s)%dL" % (jt, x)
    return [V("(%d as %s)" % (x, rs), lit(x), str(x)) for x in xs]


F32 = [0, 0x80000000, 0x3fc00000, 0x7f7fffff, 0x00000001, 0x7f800000, 0xff800000, 0x7fc00000]
F64 = [0, 1 << 63, 0x3ff8000000000000, 0x7fefffffffffffff, 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x433fffffffffffff, 0x3fb999999999999a]
FLOATS = [V("f32::from_bits(0x%xu32)" % b, "Float.intBitsToFloat(0x%x)" % b, "f%08x" % b) for b in F32]
DOUBLES = [V("f64::from_bits(0x%xu64)" % b, "Double.longBitsToDouble(0x%xL)" % b, "d%016x" % b) for b in F64]
BOOLS = [V("false", "false", "0b"), V("true", "true", "1b")]


def strs(fmt="%s"):
    return [V(fmt % rs_str(s), j_str(s), ser_str(s)) for s in JSTRS]


def boxed(vs, wrap):
    return [V("None", "null", "N")] + [V("Some(%s)" % v.rs, wrap % v.j, "S(%s)" % v.ser) for v in vs]


def arr(vs, jt, fmt="&[%s][..]"):
    r = []
    for xs in ([], vs[:1], vs[-1:], vs, list(reversed(vs)), vs * 40):
        r.append(V(fmt % ", ".join(v.rs for v in xs), "new %s[]{%s}" % (jt, ", ".join(v.j for v in xs)), "[%s]" % ",".join(v.ser for v in xs)))
    return r


I8, I16, I32, I64 = ints("i8", 8, True, "byte"), ints("i16", 16, True, "short"), ints("i32", 32, True, "int"), ints("i64", 64, True, "long")
U8, U16, U32, U64 = ints("u8", 8, False, "short"), ints("u16", 16, False, "int"), ints("u32", 32, False, "long"), ints("u64", 64, False, "long", (1 << 63) - 1)
USZ, ISZ = ints("usize", 64, False, "long", (1 << 63) - 1), ints("isize", 64, True, "long")
OBJ = [1, -2, 2147483647]


def objs(rs, j, fmt="o%d"):
    return [V(rs % x, j % x, fmt % x) for x in OBJ]


DATES = [0, 1, 999, 1000, 1234567890123, 253402300799999, (1 << 53) + 1]


def types():
    L = {}

    def add(name, rs, jin, vals, **k):
        L[name] = Ty(name, rs, jin, vals, **k)
    add("i8", "i8", "byte", I8)
    add("u8", "u8", "short", U8)
    add("i16", "i16", "short", I16)
    add("u16", "u16", "int", U16)
    add("i32", "i32", "int", I32)
    add("u32", "u32", "long", U32)
    add("i64", "i64", "long", I64)
    add("u64", "u64", "long", U64)
    add("usz", "usize", "long", USZ)
    add("isz", "isize", "long", ISZ, inp=False)
    add("f32", "f32", "float", FLOATS)
    add("f64", "f64", "double", DOUBLES)
    add("bool", "bool", "boolean", BOOLS)
    add("str", "&str", "String", strs(), ret="&'static str")
    add("string", "String", "String", strs("String::from(%s)"))
    add("path", "&Path", "String", strs("Path::new(%s)"), out=False)
    add("en", "En", "En", [V("En::" + x, "En." + x, "e%d" % i) for i, x in enumerate("ABC")])
    add("date", "SystemTime", "java.util.Date", [V("at_ms(%d)" % x, None, "t%d" % x) for x in DATES], inp=False)
    add("obj", "Obj", "Obj", objs("Obj::new(%d)", "new Obj(%d)"))
    add("objr", "&Obj", "Obj", objs("leak(Obj::new(%d))", "new Obj(%d)"), out=False)
    add("objm", "&mut Obj", "Obj", objs("leak(Obj::new(%d))", "new Obj(%d)"), out=False)
    add("cpy", "Cp", "Cp", objs("Cp::new(%d)", "new Cp(%d)"))
    add("cpyr", "&Cp", "Cp", objs("leak(Cp::new(%d))", "new Cp(%d)"), out=False)
    add("sho", "Rc<RefCell<Sh>>", "Sh", objs("sh(%d)", "new Sh(%d)"))
    add("aro", "Arc<Mutex<Ar>>", "Ar", objs("ar(%d)", "new Ar(%d)"))
    add("bxo", "Box<Bx>", "Bx", objs("bx(%d)", "new Bx(%d)"))
    # options
    add("Oi8", "Option<i8>", "Byte", boxed(I8, "Byte.valueOf(%s)"), jout="java.util.OptionalInt")
    add("Oi16", "Option<i16>", "Short", boxed(I16, "Short.valueOf(%s)"), jout="java.util.OptionalInt")
    add("Oi32", "Option<i32>", "Integer", boxed(I32, "Integer.valueOf(%s)"), jout="java.util.OptionalInt")
    add("Oi64", "Option<i64>", "Long", boxed(I64, "Long.valueOf(%s)"), jout="java.util.OptionalLong")
    add("Of32", "Option<f32>", "Float", boxed(FLOATS, "Float.valueOf(%s)"), jout="java.util.OptionalDouble", ser="S.serf(%s)")
    add("Of64", "Option<f64>", "Double", boxed(DOUBLES, "Double.valueOf(%s)"), jout="java.util.OptionalDouble")
    add("Ostr", "Option<&str>", "String", boxed(strs(), "%s"), out=False)
    add("Ostring", "Option<String>", "String", boxed(strs("String::from(%s)"), "%s"), inp=False, jout="java.util.Optional<String>")
    add("Oen", "Option<En>", "En", boxed(L["en"].v, "%s"), jout="java.util.Optional<En>")
    for n in ("obj", "cpy", "sho", "aro", "bxo"):
        add("O" + n, "Option<%s>" % L[n].rs, L[n].jin, boxed(L[n].v, "%s"), jout="java.util.Optional<%s>" % L[n].jin)
    add("Oobjr", "Option<&Obj>", "Obj", boxed(L["objr"].v, "%s"), out=False)
    # arrays
    for n, jt in (("i8", "byte"), ("i16", "short"), ("i32", "int"), ("i64", "long"), ("f32", "float"), ("f64", "double")):
        v = L[n].v
        add("S" + n, "&[%s]" % n, jt + " []", arr(v, jt), ret="&'static [%s]" % n)
        L["S" + n].outv = arr(v, jt, "leakv(vec![%s])")
        add("V" + n, "Vec<%s>" % n, jt + " []", arr(v, jt, "vec![%s]"), inp=False)
    add("Vstring", "Vec<String>", "String []", arr(strs("String::from(%s)"), "String", "vec![%s]"), inp=False)
    add("Ocpyr", "Option<&Cp>", "Cp", boxed(L["cpyr"].v, "%s"), out=False)
    for n in ("obj", "cpy", "sho", "aro", "bxo"):
        add("V" + n, "Vec<%s>" % L[n].rs, L[n].jin + " []", arr(L[n].v, L[n].jin, "vec![%s]"), inp=n == "cpy")
    # results
    errs = strs("String::from(%s)")
    for n in list(L) + ["unit"]:
        if n == "unit":
            t = Ty("unit", "()", "void", [V("()", None, "u")], inp=False)
            add("unit", "()", "void", t.v, inp=False)
        else:
            t = L[n]
        if not t.out:
            continue
        for e, er, ev in (("", "String", errs), ("s", "&str", strs())):
            vs = [V("Ok(%s)" % v.rs, None, v.ser) for v in t.outv]
            vs += [V("Err(%s)" % v.rs, None, "E(%s)" % v.ser) for v in ev]
            add("R%s%s" % (e, n), "Result<%s, %s>" % (t.rs, er), "", vs, ret="Result<%s, %s>" % (t.ret, er.replace("&", "&'static ")), inp=False, jout=t.jout, ser=t.ser, throws=True)
    for n in [x for x in L if x.startswith("R") and not x.startswith("Rs") and x != "Runit"]:
        t = L[n]
        vs = [V("Ok(%s)" % v.rs, None, v.ser) for v in t.outv] + [V("Err(%s)" % v.rs, None, "E(%s)" % v.ser) for v in strs("String::from(%s)")]
        add("R" + n, "Result<%s, String>" % t.rs, "", vs, ret="Result<%s, String>" % t.ret, inp=False, jout=t.jout, ser=t.ser, throws=True)
    return L


DESC = r'''
foreign_enum!(enum En { A = En::A, B = En::B, C = En::C, });
foreign_class!(class Obj { self_type Obj; constructor Obj::new(v: i32) -> Obj; fn Obj::vtag(&self) -> i32; fn Obj::set(&mut self, v: i32); });
foreign_class!(#[derive(Clone)] class Cp { self_type Cp; constructor Cp::new(v: i32) -> Cp; fn Cp::vtag(&self) -> i32; fn Cp::clone(&self) -> Cp; });
foreign_class!(class Sh { self_type Sh; constructor sh(v: i32) -> Rc<RefCell<Sh>>; fn Sh::vtag(&self) -> i32; });
foreign_class!(class Ar { self_type Ar; constructor ar(v: i32) -> Arc<Mutex<Ar>>; fn Ar::vtag(&self) -> i32; });
foreign_class!(class Bx { self_type Bx; constructor bx(v: i32) -> Box<Bx>; fn Bx::vtag(&self) -> i32; });
'''
RUST = r'''
#[allow(unused_imports)] use std::{cell::{Ref, RefCell, RefMut}, path::Path, rc::Rc, sync::{Arc, Mutex, MutexGuard}, time::SystemTime};
#[derive(Clone, Copy, PartialEq, Debug)] pub enum En { A, B, C }
pub struct Obj { v: i32 } impl Obj { pub fn new(v: i32) -> Obj { Obj { v } } pub fn vtag(&self) -> i32 { self.v } pub fn set(&mut self, v: i32) { self.v = v; } }
#[derive(Clone)] pub struct Cp { v: i32 } impl Cp { pub fn new(v: i32) -> Cp { Cp { v } } pub fn vtag(&self) -> i32 { self.v } }
pub struct Sh { v: i32 } impl Sh { pub fn vtag(&self) -> i32 { self.v } } pub fn sh(v: i32) -> Rc<RefCell<Sh>> { Rc::new(RefCell::new(Sh { v })) }
pub struct Ar { v: i32 } impl Ar { pub fn vtag(&self) -> i32 { self.v } } pub fn ar(v: i32) -> Arc<Mutex<Ar>> { Arc::new(Mutex::new(Ar { v })) }
pub struct Bx { v: i32 } impl Bx { pub fn vtag(&self) -> i32 { self.v } } pub fn bx(v: i32) -> Box<Bx> { Box::new(Bx { v }) }
#[allow(dead_code)] pub fn leak<T>(x: T) -> &'static mut T { Box::leak(Box::new(x)) }
#[allow(dead_code)] pub fn leakv<T>(x: Vec<T>) -> &'static mut [T] { Box::leak(x.into_boxed_slice()) }
#[allow(dead_code)] pub fn at_ms(ms: u64) -> SystemTime { std::time::UNIX_EPOCH + std::time::Duration::from_millis(ms) }
pub trait Ser { fn ser(&self) -> String; }
macro_rules! num { ($($t:ty)*) => { $(impl Ser for $t { fn ser(&self) -> String { self.to_string() } })* } }
num!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
impl Ser for f32 { fn ser(&self) -> String { format!("f{:08x}", self.to_bits()) } }
impl Ser for f64 { fn ser(&self) -> String { format!("d{:016x}", self.to_bits()) } }
impl Ser for bool { fn ser(&self) -> String { (if *self { "1b" } else { "0b" }).into() } }
impl Ser for () { fn ser(&self) -> String { "u".into() } }
impl Ser for str { fn ser(&self) -> String { let mut s = String::from("s"); for b in self.as_bytes() { s += &format!("{:02x}", b); } s } }
impl Ser for String { fn ser(&self) -> String { self.as_str().ser() } }
impl Ser for Path { fn ser(&self) -> String { self.to_str().unwrap().ser() } }
impl Ser for En { fn ser(&self) -> String { format!("e{}", match self { En::A => 0, En::B => 1, En::C => 2 }) } }
impl Ser for Obj { fn ser(&self) -> String { format!("o{}", self.v) } }
impl Ser for Cp { fn ser(&self) -> String { format!("o{}", self.v) } }
impl Ser for Rc<RefCell<Sh>> { fn ser(&self) -> String { format!("o{}", self.borrow().v) } }
impl Ser for Arc<Mutex<Ar>> { fn ser(&self) -> String { format!("o{}", self.lock().unwrap().v) } }
impl Ser for Box<Bx> { fn ser(&self) -> String { format!("o{}", self.v) } }
impl<T: Ser + ?Sized> Ser for &T { fn ser(&self) -> String { (**self).ser() } }
impl<T: Ser + ?Sized> Ser for &mut T { fn ser(&self) -> String { (**self).ser() } }
impl<T: Ser> Ser for Option<T> { fn ser(&self) -> String { match self { None => "N".into(), Some(x) => format!("S({})", x.ser()) } } }
impl<T: Ser> Ser for [T] { fn ser(&self) -> String { format!("[{}]", self.iter().map(|x| x.ser()).collect::<Vec<_>>().join(",")) } }
impl<T: Ser> Ser for Vec<T> { fn ser(&self) -> String { self[..].ser() } }
'''
# org.fg.S: the canonical text of what Java received
S_JAVA = r'''package org.fg;
import java.nio.charset.StandardCharsets;
public class S {
  static int bad = 0, n = 0;
  static String ser(byte x) { return Byte.toString(x); }
  static String ser(short x) { return Short.toString(x); }
  static String ser(int x) { return Integer.toString(x); }
  static String ser(long x) { return Long.toString(x); }
  static String ser(float x) { return String.format("f%08x", Float.floatToRawIntBits(x)); }
  static String ser(double x) { return String.format("d%016x", Double.doubleToRawLongBits(x)); }
  static String ser(boolean x) { return x ? "1b" : "0b"; }
  static String ser(String s) {
    if (s == null) return "null";
    for (int i = 0; i < s.length(); ++i) {
      char c = s.charAt(i);
      if (Character.isHighSurrogate(c) && i + 1 < s.length() && Character.isLowSurrogate(s.charAt(i + 1))) { ++i; continue; }
      if (Character.isSurrogate(c)) return "LONE-SURROGATE";
    }
    StringBuilder b = new StringBuilder("s");
    for (byte x : s.getBytes(StandardCharsets.UTF_8)) { b.append(Character.forDigit((x >> 4) & 15, 16)); b.append(Character.forDigit(x & 15, 16)); }
    return b.toString();
  }
  static String ser(java.util.Date d) { return "t" + d.getTime(); }
  static String ser(En e) { return e == null ? "null" : "e" + e.ordinal(); }
  static String ser(Obj o) { return o == null ? "null" : "o" + o.vtag(); }
  static String ser(Cp o) { return o == null ? "null" : "o" + o.vtag(); }
  static String ser(Sh o) { return o == null ? "null" : "o" + o.vtag(); }
  static String ser(Ar o) { return o == null ? "null" : "o" + o.vtag(); }
  static String ser(Bx o) { return o == null ? "null" : "o" + o.vtag(); }
  static String ser(java.util.OptionalInt o) { return o.isPresent() ? "S(" + ser(o.getAsInt()) + ")" : "N"; }
  static String ser(java.util.OptionalLong o) { return o.isPresent() ? "S(" + ser(o.getAsLong()) + ")" : "N"; }
  static String ser(java.util.OptionalDouble o) { return o.isPresent() ? "S(" + ser(o.getAsDouble()) + ")" : "N"; }
  static String serf(java.util.OptionalDouble o) { if (!o.isPresent()) return "N"; double d = o.getAsDouble(); float f = (float) d; if (f != d && d == d) return "S(inexact " + d + ")"; return "S(" + ser(f) + ")"; }
  static String ser(java.util.Optional<?> o) { return o.isPresent() ? "S(" + any(o.get()) + ")" : "N"; }
  static String any(Object o) {
    if (o instanceof String) return ser((String) o);
    if (o instanceof En) return ser((En) o);
    if (o instanceof Obj) return ser((Obj) o);
    if (o instanceof Cp) return ser((Cp) o);
    if (o instanceof Sh) return ser((Sh) o);
    if (o instanceof Ar) return ser((Ar) o);
    if (o instanceof Bx) return ser((Bx) o);
    return "?" + o;
  }
  interface At { String at(int i); }
  static String seq(int n, At f) { StringBuilder b = new StringBuilder("["); for (int i = 0; i < n; ++i) { if (i > 0) b.append(","); b.append(f.at(i)); } return b.append("]").toString(); }
  static String ser(byte[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(short[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(int[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(long[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(float[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(double[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(String[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(Obj[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(Cp[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(Ar[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(Bx[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ser(Sh[] a) { return seq(a.length, i -> ser(a[i])); }
  static String ex(Throwable e) { return e.getClass() == Exception.class ? "E(" + ser(e.getMessage()) + ")" : "E!" + e; }
  static void chk(String what, int k, String got, String want) {
    ++n;
    if (!got.equals(want)) { if (++bad <= 60) System.out.println("VIOL\t" + what + "\tvalue " + k + ": got " + cut(got) + ", expected " + cut(want) + "\t" + what + "(" + k + ")"); }
  }
  static String cut(String s) { s = s.replace('\t', ' ').replace('\n', ' '); return s.length() > 160 ? s.substring(0, 160) + "..." : s; }
  static void done() { System.out.println("STATS\tjava\tsteps=" + n + "\tseq=" + n); System.out.flush(); }
}
'''
