"""Types, abstract values and their spellings for the Python value matrix (P12).
A value: (Rust expression, Python expression or None, canonical text); a value with an Err inside raises: ser "raise:<text>"."""
import itertools, re

SPECS = ["S", "F"]


class V:
    __slots__ = ("rs", "py", "ser")

    def __init__(self, rs, py, ser):
        self.rs, self.py, self.ser = rs, py, ser


class Ty:
    """spec: what the Python side checks and renders; inp/out: vals as argument / as result"""

    def __init__(self, name, rs, spec, inv, outv, ret=None, bad=(), refok=True):
        self.name, self.rs, self.spec, self.inv, self.outv, self.ret, self.bad = name, rs, spec, inv, outv, ret or rs, list(bad)


def comb(sers, f):
    for s in sers:
        if s.startswith("raise:"):
            return s
    return f(sers)


ILL_NUM = ["None", "'1'", "1.5", "[]", "object()", "fgmod.Mu(1)", "b'1'", "(1,)", "fgmod.Mu"]


def _int(t, bits, signed):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    xs = sorted(set([0, 1, lo, hi] + ([-1, lo + 1] if signed else [1 << bits - 1]) + [1 << k for k in (7, 8, 15, 16, 31, 32, 53, 63) if (1 << k) < hi] + [hi - 1]))
    vs = [V("(%d as %s)" % (x, t), "%d" % x, "%d" % x) for x in xs]
    bad = ILL_NUM + ["%d" % x for x in sorted(set([lo - 1, hi + 1, lo - 256, hi + 256, 1 << 64, (1 << 64) + 1, -(1 << 64), 1 << 128, -(1 << 63) - 1] + [lo + (1 << bits) * 2, hi + (1 << bits), lo - (1 << bits)])) if not lo <= x <= hi]
    return vs, bad + ["1.0", "float('nan')"]


STRS = ["", "a", "ab c", "caf\u00e9 \u043a\u043b\u044e\u0447", "\U0001f600x", "nul\0in", "x" * 300, "\ufeff\u2028\u00ff", "{} {0} %s \\ \" '"]


def rs_str(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


def ser_str(s):
    return "s" + s.encode().hex()


ILL_STR = ["None", "1", "1.5", "['a']", "object()", "fgmod.Mu(1)", "('a',)", "'\\ud800'", "'a\\udfffb'"]
STORES = {  # class: (clone derived, list of (type, in, out))
    "Mu": [("Mu", 1, 1), ("&Mu", 1, 1), ("&mut Mu", 1, 0), ("Mutex<Mu>", 0, 1), ("&Mutex<Mu>", 1, 0)],
    "Mx": [("Mx", 1, 1), ("&Mx", 1, 1), ("&mut Mx", 1, 0), ("Mutex<Mx>", 0, 1), ("&Mutex<Mx>", 1, 0)],
    "Am": [("Am", 1, 0), ("&Am", 1, 0), ("&mut Am", 1, 0), ("Arc<Mutex<Am>>", 1, 1), ("&Arc<Mutex<Am>>", 1, 1)],
    "Ar": [("Ar", 1, 0), ("&Ar", 1, 0), ("Arc<Ar>", 1, 1), ("&Arc<Ar>", 1, 1)],
    "Bx": [("Bx", 1, 1), ("&Bx", 1, 1), ("Box<Bx>", 0, 1)],
    "Cp": [("Cp", 1, 1), ("&Cp", 1, 1), ("&mut Cp", 1, 0)],
}
WRAP = {"": "%s", "&": "&%s", "&mut ": "leak(%s)", "Mutex": "Mutex::new(%s)", "&Mutex": "leak(Mutex::new(%s))", "Arc<Mutex": "Arc::new(Mutex::new(%s))", "&Arc<Mutex": "leak(Arc::new(Mutex::new(%s)))",
        "Arc": "Arc::new(%s)", "&Arc": "leak(Arc::new(%s))", "Box": "Box::new(%s)"}


def leaves():
    L = {}

    def add(name, rs, spec, vs, bad=(), inp=True, out=True, ret=None):
        L[name] = Ty(name, rs, spec, vs if inp else None, vs if out else None, ret, bad)
    for b in (8, 16, 32, 64):
        for s in (1, 0):
            t = ("i" if s else "u") + str(b)
            v, bad = _int(t, b, s)
            add(t, t, "I", v, bad)
    v, bad = _int("isize", 64, 1)
    add("isz", "isize", "I", v, bad)
    v, bad = _int("usize", 64, 0)
    add("usz", "usize", "I", v, bad)
    f32 = [0, 0x80000000, 0x3fc00000, 0x7f7fffff, 0x00000001, 0x7f800000, 0xff800000, 0x7fc00000]
    f64 = [0, 1 << 63, 0x3ff8000000000000, 0x7fefffffffffffff, 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x433fffffffffffff, 0x3fb999999999999a]
    ill = ["None", "'1'", "[]", "object()", "fgmod.Mu(1)", "(1.0,)", "1j", "10 ** 400"]
    add("f32", "f32", "F", [V("f32::from_bits(0x%xu32)" % b, "f32(0x%x)" % b, "fnan" if b == 0x7fc00000 else "f%08x" % b) for b in f32], ill)
    add("f64", "f64", "D", [V("f64::from_bits(0x%xu64)" % b, "f64(0x%x)" % b, "dnan" if b == 0x7ff8000000000000 else "d%016x" % b) for b in f64], ill)
    add("bool", "bool", "B", [V("false", "False", "0b"), V("true", "True", "1b")], ["None", "1", "0", "'True'", "[]", "1.0", "object()"])
    add("str", "&str", "S", [V(rs_str(s), repr(s), ser_str(s)) for s in STRS], ILL_STR, ret="&'static str")
    add("string", "String", "S", [V("String::from(%s)" % rs_str(s), repr(s), ser_str(s)) for s in STRS], ILL_STR)
    add("en", "En", "E", [V("En::" + i, "fgmod.En." + i, "e%d" % k) for k, i in enumerate(("A", "B", "C"))], ["None", "'A'", "8", "-1", "1.0", "2", "(1 << 32) + 7", "1 << 64", "fgmod.En"])
    add("unit", "()", "U", [V("()", None, "u")], inp=False)
    for c, forms in STORES.items():
        for f, i, o in forms:
            pre = re.split(r"\b%s\b" % c, f)[0].rstrip("<")
            w = WRAP[pre if pre in ("&", "&mut ") else pre.strip()]
            nm = {"": "v", "&": "r", "&mut ": "m", "Mutex": "x", "&Mutex": "rx", "Arc<Mutex": "a", "&Arc<Mutex": "ra", "Arc": "a", "&Arc": "ra", "Box": "b"}[pre]
            if pre == "&":
                w = "leak(%s)"
            vs = [V(w % ("%s::make(%d)" % (c, x)), "fgmod.%s(%d)" % (c, x), "o%d" % x) for x in (1, -2, 2147483647)]
            add(c.lower() + nm, f, "C" + c, vs, ["None", "1", "'x'", "[]", "object()", "fgmod.%s" % c, "fgmod.%s(1)" % ("Bx" if c != "Bx" else "Ar")], inp=bool(i), out=bool(o),
                ret=f.replace("&", "&'static ") if "&" in f else f)
    return L


def opt(t):
    def vals(vs):
        return vs and [V("None", "None", "N")] + [V("Some(%s)" % v.rs, v.py, comb([v.ser], lambda s: "S(%s)" % s[0])) for v in vs]
    # Some(None) and None are one value in Python
    if t.spec.startswith("O") or t.spec == "U":
        raise TypeError
    return Ty("O" + t.name, "Option<%s>" % t.rs, "O(%s)" % t.spec, vals(t.inv), vals(t.outv), "Option<%s>" % t.ret, [b for b in t.bad if b != "None"][:6] + ["object()"])


def _seqs(vs):
    return [[], [vs[0]], list(vs), [vs[-1], vs[0], vs[-1]]]


def _many(t, fmt, seq="[%s]"):
    def vals(vs):
        return vs and [V(fmt % ", ".join(v.rs for v in q), "[%s]" % ", ".join(str(v.py) for v in q), comb([v.ser for v in q], lambda s: "[%s]" % ",".join(s))) for q in _seqs(vs)]
    first = t.inv[0].py if t.inv else "1"
    bad = ["None", "1", "object()"] + ["[%s]" % b for b in t.bad[:3]] + ["[%s, %s]" % (first, b) for b in t.bad[:4] + t.bad[-2:]]
    return vals(t.inv), vals(t.outv), bad


def vec(t):
    i, o, bad = _many(t, "vec![%s]")
    return Ty("V" + t.name, "Vec<%s>" % t.rs, "V(%s)" % t.spec, i, o, "Vec<%s>" % t.ret, bad)


def slc(t):
    i, o, bad = _many(t, "leakv(vec![%s])")
    return Ty("L" + t.name, "&[%s]" % t.rs, "V(%s)" % t.spec, i, o, "&'static [%s]" % t.ret, bad)


def ref(t):
    if t.rs.startswith("&") or t.spec[0] == "C" or t.rs == "()":
        raise TypeError

    def vals(vs):
        return vs and [V("leak(%s)" % v.rs, v.py, v.ser) for v in vs]
    return Ty("P" + t.name, "&" + t.rs, t.spec, vals(t.inv), vals(t.outv), "&'static " + t.ret, t.bad)


ERRV = [("MyErr::new(&[\"e1\"])", "e1"), ("MyErr::new(&[\"top {}\", \"mid \\u{0}\\u{1f600}\", \"root\"])", "top {}\nCaused by:\nmid \0\U0001f600\nCaused by:\nroot"), ("MyErr::new(&[\"\"])", "")]


def res(t, e="MyErr"):
    if not t.outv:
        raise TypeError
    if e == "MyErr":
        ev = [("Err(%s)" % rs, s) for rs, s in ERRV]
    elif e == "PErr":
        ev = [("Err(\"x\".parse::<i32>().unwrap_err())", "invalid digit found in string")]
    else:
        ev = [("Err(std::io::Error::new(std::io::ErrorKind::Other, MyErr::new(&[\"io\", \"why\"])))", "io\nCaused by:\nwhy")]
    en = {"MyErr": "MyErr", "PErr": "std::num::ParseIntError", "Io": "std::io::Error"}[e]
    vs = [V("Ok(%s)" % v.rs, None, v.ser) for v in t.outv] + [V(rs, None, "raise:" + ser_str(s)) for rs, s in ev]
    return Ty("R%s%s" % ("" if e == "MyErr" else e, t.name), "Result<%s, %s>" % (t.rs, en), t.spec, None, vs, "Result<%s, %s>" % (t.ret, en))


def tup(*ts):
    if not all(t.outv for t in ts):
        raise TypeError
    vs = [t.outv for t in ts]
    small = 1
    for v in vs:
        small *= len(v)
    if small <= 16:
        combos = list(itertools.product(*vs))
    else:
        n = max(len(v) for v in vs)
        combos = [[v[(k * (1 + 2 * j) + j) % len(v)] for j, v in enumerate(vs)] for k in range(2 * n)]
    out = [V("(%s,)" % ", ".join(v.rs for v in c), None, comb([v.ser for v in c], lambda s: "(%s)" % ",".join(s))) for c in combos]
    return Ty("T" + "_".join(t.name for t in ts), "(%s,)" % ", ".join(t.rs for t in ts) if len(ts) == 1 else "(%s)" % ", ".join(t.rs for t in ts), "T(%s)" % ";".join(t.spec for t in ts), None, out,
              "(%s,)" % ", ".join(t.ret for t in ts))


REPS = ["i32", "u8", "u64", "f64", "bool", "str", "string", "en", "muv", "mxv", "ama", "ara", "bxv", "cpv"]


def matrix(L, deep=False):
    out = {}

    def add(f, *a):
        try:
            t = f(*a)
        except TypeError:
            return None
        if (t.inv or t.outv) and t.name not in out:
            out[t.name] = t
        return t
    for l in L.values():
        out[l.name] = l
        for f in (opt, vec, slc, ref, res):
            add(f, l)
        add(tup, l)
        for e in ("PErr", "Io"):
            add(res, l, e)
    R = [L[n] for n in REPS]
    names = [n for n in L if L[n].outv]
    for a in names:
        for b in (names if deep else REPS):
            add(tup, L[a], L[b])
    for k in range(len(names)):
        add(tup, *[L[names[(k + j * 5) % len(names)]] for j in range(3)])
        add(tup, *[L[names[(k + j * 3) % len(names)]] for j in range(4)])
        add(tup, *[L[names[(k + j * 7) % len(names)]] for j in range(9)])
    d1 = []
    for l in R:
        for f in (opt, vec, slc, ref, res):
            d1.append(add(f, l))
        d1.append(add(tup, l, L["i32"]))
        d1.append(add(tup, L["bool"], l, L["u8"]))
    d1 = [t for t in d1 if t]
    d2 = []
    for t in d1:
        for f in (opt, vec, slc, ref, res):
            d2.append(add(f, t))
        d2.append(add(tup, t, L["string"]))
        d2.append(add(tup, L["u16"], t))
    if deep:
        for t in [t for t in d2 if t][::3]:
            for f in (opt, vec, slc, ref, res):
                add(f, t)
            add(tup, t, L["i8"])
    return out


RUST = r'''
use std::sync::{Arc, Mutex};
pub fn leak<T>(x: T) -> &'static mut T { Box::leak(Box::new(x)) }
pub fn leakv<T>(x: Vec<T>) -> &'static [T] { Box::leak(x.into_boxed_slice()) }
#[derive(Debug)] pub struct MyErr { text: String, next: Option<Box<MyErr>> }
impl MyErr { pub fn new(t: &[&str]) -> MyErr { MyErr { text: t[0].to_string(), next: if t.len() > 1 { Some(Box::new(MyErr::new(&t[1..]))) } else { None } } } }
impl std::fmt::Display for MyErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.text) } }
impl std::error::Error for MyErr { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.next.as_ref().map(|x| &**x as _) } }
#[derive(Clone, Copy, Debug, PartialEq)] pub enum En { A = 3, B = -70000, C = 7 }
pub trait Ser { fn ser(&self) -> String; }
macro_rules! ints { ($($t:ty)*) => { $(impl Ser for $t { fn ser(&self) -> String { self.to_string() } })* } }
ints!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
impl Ser for f32 { fn ser(&self) -> String { if self.is_nan() { "fnan".into() } else { format!("f{:08x}", self.to_bits()) } } }
impl Ser for f64 { fn ser(&self) -> String { if self.is_nan() { "dnan".into() } else { format!("d{:016x}", self.to_bits()) } } }
impl Ser for bool { fn ser(&self) -> String { if *self { "1b".into() } else { "0b".into() } } }
impl Ser for str { fn ser(&self) -> String { let mut s = String::from("s"); for b in self.bytes() { s += &format!("{:02x}", b); } s } }
impl Ser for String { fn ser(&self) -> String { self.as_str().ser() } }
impl Ser for En { fn ser(&self) -> String { match self { En::A => "e0", En::B => "e1", En::C => "e2" }.into() } }
impl<T: Ser + ?Sized> Ser for &T { fn ser(&self) -> String { (**self).ser() } }
impl<T: Ser + ?Sized> Ser for &mut T { fn ser(&self) -> String { (**self).ser() } }
impl<T: Ser> Ser for Option<T> { fn ser(&self) -> String { match self { Some(x) => format!("S({})", x.ser()), None => "N".into() } } }
impl<T: Ser> Ser for [T] { fn ser(&self) -> String { format!("[{}]", self.iter().map(|x| x.ser()).collect::<Vec<_>>().join(",")) } }
impl<T: Ser> Ser for Vec<T> { fn ser(&self) -> String { self.as_slice().ser() } }
impl<T: Ser> Ser for Mutex<T> { fn ser(&self) -> String { self.lock().unwrap().ser() } }
impl<T: Ser> Ser for Arc<T> { fn ser(&self) -> String { (**self).ser() } }
impl<T: Ser> Ser for Box<T> { fn ser(&self) -> String { (**self).ser() } }
macro_rules! classes { ($($t:ident)*) => { $(#[derive(Clone, Debug)] pub struct $t { v: i32 } impl $t { pub fn make(v: i32) -> $t { $t { v } } pub fn v(&self) -> i32 { self.v } }
  impl Ser for $t { fn ser(&self) -> String { format!("o{}", self.v) } })* } }
classes!(Mu Mx Am Ar Bx Cp);
impl Mu { pub fn new(v: i32) -> Mu { Mu::make(v) } }
impl Mx { pub fn new(v: i32) -> Mutex<Mx> { Mutex::new(Mx::make(v)) } }
impl Am { pub fn new(v: i32) -> Arc<Mutex<Am>> { Arc::new(Mutex::new(Am::make(v))) } }
impl Ar { pub fn new(v: i32) -> Arc<Ar> { Arc::new(Ar::make(v)) } }
impl Bx { pub fn new(v: i32) -> Box<Bx> { Box::new(Bx::make(v)) } }
impl Cp { pub fn new(v: i32) -> Cp { Cp::make(v) } }
'''

DESC = "foreign_enum!(enum En { A = En::A, B = En::B, C = En::C, });\n" + "".join(
    "foreign_class!(#[derive(%s)] class %s { self_type %s; constructor %s::new(v: i32) -> %s; fn %s::v(&self) -> i32; %s});\n" % ("Copy" if c == "Cp" else "Clone", c, c, c, r, c, "fn Cp::clone(&self) -> Cp; " if c == "Cp" else "")
    for c, r in (("Mu", "Mu"), ("Mx", "Mutex<Mx>"), ("Am", "Arc<Mutex<Am>>"), ("Ar", "Arc<Ar>"), ("Bx", "Box<Bx>"), ("Cp", "Cp")))
