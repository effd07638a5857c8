"""Types, abstract values and their spellings for the value matrices (P05, P11, P18 for C++).

A value is (rust expression, C++ rvalue expression or None, canonical text).  The canonical text is the oracle:
both sides render what they received into it, independently of each other."""
import itertools, struct


class V:
    __slots__ = ("rs", "cpp", "ser")

    def __init__(self, rs, cpp, ser):
        self.rs, self.cpp, self.ser = rs, cpp, ser


class Ty:
    def __init__(self, name, rs, vals, inp=True, out=True, kind="leaf", parts=(), ret=None, need=(), cx=None):
        self.name, self.rs, self._vals, self.inp, self.out, self.kind, self.parts = name, rs, vals, inp, out, kind, tuple(parts)
        self.ret = ret or rs          # how the type is spelled in Rust return position
        self.cx = cx                  # the C++ type of an owned value
        self.need = tuple(need)       # types whose maker functions the C++ expressions use

    def vals(self):
        return self._vals

    def deps(self):
        s = list(self.need)
        for p in self.parts:
            s += p.deps()
        return s

    def depth(self):
        return 1 + max([p.depth() for p in self.parts], default=-1)


def _int(rs, bits, signed, cpp=None):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    xs = [0, 1, lo, hi] + ([-1, lo + 1] if signed else [1 << bits - 1]) + [1 << k for k in (7, 8, 15, 16, 31, 32) if (1 << k) < hi]
    xs = sorted(set(xs))
    c = cpp or "%sint%d_t" % ("" if signed else "u", bits)

    def lit(x):
        if signed:
            return "static_cast<%s>(%s)" % (c, "INT64_MIN" if x == -(1 << 63) else "%dLL" % x)
        return "static_cast<%s>(%dULL)" % (c, x)
    return [V("(%d as %s)" % (x, rs), lit(x), str(x)) for x in xs]


def _f32():
    bits = [0, 0x80000000, 0x3fc00000, 0x7f7fffff, 0x00000001, 0x7f800000, 0xff800000, 0x7fc00001]
    return [V("f32::from_bits(0x%xu32)" % b, "fb32(0x%xu)" % b, "f%08x" % b) for b in bits]


def _f64():
    bits = [0, 1 << 63, 0x3ff8000000000000, 0x7fefffffffffffff, 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x433fffffffffffff]
    return [V("f64::from_bits(0x%xu64)" % b, "fb64(0x%xull)" % b, "d%016x" % b) for b in bits]


STRS = ["", "a", "ab c", "caf\u00e9 \u043a\u043b\u044e\u0447", "\U0001f600x", "nul\0in", "x" * 300, "\ufeff\u2028\u00ff"]


def rs_str(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


def cpp_str(s):
    b = s.encode()
    return '"' + "".join("\\%03o" % x if not (32 <= x < 127) or chr(x) in '"\\?' else chr(x) for x in b) + '"'


def ser_str(s):
    return "s" + s.encode().hex()


def _strs(rs="%s", cpp=True, nul=True):
    return [V(rs % rs_str(s), "sv(%s, %d)" % (cpp_str(s), len(s.encode())) if cpp else None, ser_str(s)) for s in STRS if nul or "\0" not in s]


def leaves():
    L = {}

    CX = dict(isz="intptr_t", usz="uintptr_t", f32="float", f64="double", bool="bool", cch="char", csh="short", cus="unsigned short", cin="int", cui="unsigned int", clo="long",
              str="STRV", string="STRV", path="STRV", en="EnC", v2="V2", obj="Obj", objr="const Obj &", objm="Obj &", cpy="Cp", sho="Sh", aro="Ar")

    def add(name, rs, vals, **k):
        L[name] = Ty(name, rs, vals, cx=CX.get(name, ""), **k)
    for b in (8, 16, 32, 64):
        CX["i%d" % b], CX["u%d" % b] = "int%d_t" % b, "uint%d_t" % b
        add("i%d" % b, "i%d" % b, _int("i%d" % b, b, True))
        add("u%d" % b, "u%d" % b, _int("u%d" % b, b, False))
    add("isz", "isize", _int("isize", 64, True, "intptr_t"))
    add("usz", "usize", _int("usize", 64, False, "uintptr_t"))
    add("f32", "f32", _f32())
    add("f64", "f64", _f64())
    add("bool", "bool", [V("false", "false", "0b"), V("true", "true", "1b")])
    raw = "::std::os::raw::"
    add("cch", raw + "c_char", _int(raw + "c_char", 8, True, "char"))
    add("csh", raw + "c_short", _int(raw + "c_short", 16, True, "short"))
    add("cus", raw + "c_ushort", _int(raw + "c_ushort", 16, False, "unsigned short"))
    add("cin", raw + "c_int", _int(raw + "c_int", 32, True, "int"))
    add("cui", raw + "c_uint", _int(raw + "c_uint", 32, False, "unsigned int"))
    add("clo", raw + "c_long", _int(raw + "c_long", 64, True, "long"))
    add("str", "&str", _strs(), ret="&'static str")
    add("string", "String", _strs("String::from(%s)"))
    add("path", "&Path", _strs("Path::new(%s)"), out=False)
    add("en", "En", [V("En::" + i, "EnC::" + i, "e%d" % k) for k, i in enumerate(("A", "B", "C"))])
    add("v2", "V2", [V("V2{x: f32::from_bits(0x%xu32), y: %d, z: %d}" % (a, b, c), "mk_v2(fb32(0x%xu), %s, %d)" % (a, "INT64_MIN" if b == -(1 << 63) else "%dLL" % b, c), "v(f%08x,%d,%d)" % (a, b, c))
                     for a, b, c in ((0x3f800000, -(1 << 63), 255), (0, 0, 0), (0xff800000, (1 << 63) - 1, 7))])
    objs = [1, -2, 2147483647]
    add("obj", "Obj", [V("Obj::new(%d)" % x, "Obj(%d)" % x, "o%d" % x) for x in objs])
    add("objr", "&Obj", [V("leak(Obj::new(%d))" % x, "keep(Obj(%d))" % x, "o%d" % x) for x in objs], ret="&'static Obj")
    add("objm", "&mut Obj", [V("leak(Obj::new(%d))" % x, "keep(Obj(%d))" % x, "o%d" % x) for x in objs], ret="&'static mut Obj")
    add("cpy", "Cp", [V("Cp::new(%d)" % x, "Cp(%d)" % x, "o%d" % x) for x in objs])
    add("sho", "Rc<RefCell<Sh>>", [V("sh(%d)" % x, "Sh(%d)" % x, "o%d" % x) for x in objs])
    add("aro", "Arc<Mutex<Ar>>", [V("ar(%d)" % x, "Ar(%d)" % x, "o%d" % x) for x in objs])
    add("unit", "()", [V("()", None, "u")], inp=False)
    return L


def opt(t):
    T = Ty("O" + t.name, "Option<%s>" % t.rs, None, t.inp, t.out, "opt", [t], "Option<%s>" % t.ret)
    T.cx = "OPT<%s>" % t.cx
    if t.name in ("objr", "objm"):
        T.cx = "const Obj *" if t.name == "objr" else "Obj *"
        T._vals = [V("None", "nullptr", "N")] + [V("Some(%s)" % v.rs, "&" + v.cpp, "S(%s)" % v.ser) for v in t.vals()]
    else:
        T._vals = [V("None", "%s{}" % T.cx, "N")]
        T._vals += [V("Some(%s)" % v.rs, v.cpp and "%s(%s)" % (T.cx, v.cpp), "S(%s)" % v.ser) for v in t.vals()]
    return T


def res(t, e):
    if t.name == "unit":
        raise TypeError
    T = Ty("R%s_%s" % (t.name, e.name), "Result<%s, %s>" % (t.rs, e.rs), None, t.inp and e.inp and "&" not in t.cx + e.cx, t.out and e.out, "res", [t, e], "Result<%s, %s>" % (t.ret, e.ret))
    A = T.cx = "RES<%s, %s>" % (t.cx, e.cx)
    T._vals = [V("Ok(%s)" % v.rs, v.cpp and "mkok<%s>(%s)" % (A, v.cpp), "ok(%s)" % v.ser) for v in t.vals()]
    T._vals += [V("Err(%s)" % v.rs, v.cpp and "mker<%s>(%s)" % (A, v.cpp), "er(%s)" % v.ser) for v in e.vals()]
    return T


def res0(e):
    T = Ty("R0_%s" % e.name, "Result<(), %s>" % e.rs, None, e.inp and "&" not in e.cx, e.out, "res0", [e], "Result<(), %s>" % e.ret)
    T.cx = "VOPT<%s>" % e.cx
    T._vals = [V("Ok(())", "%s{}" % T.cx, "N")]
    T._vals += [V("Err(%s)" % v.rs, v.cpp and "%s(%s)" % (T.cx, v.cpp), "S(%s)" % v.ser) for v in e.vals()]
    return T


def tup(*ts):
    # (.., &Class, ..) is supported as a returned value only (see DESIGN.md, findings of P18)
    T = Ty("T" + "_".join(t.name for t in ts), "(%s)" % ", ".join(t.rs for t in ts), None, all(t.inp and t.name != "objr" for t in ts), all(t.out for t in ts), "tup", ts,
           "(%s)" % ", ".join(t.ret for t in ts))
    T.cx = "std::%s<%s>" % ("pair" if len(ts) == 2 else "tuple", ", ".join(t.cx or "?" for t in ts))
    n = max(len(t.vals()) for t in ts)
    small = 1
    for t in ts:
        small *= len(t.vals())
    if small <= 20:
        combos = list(itertools.product(*[t.vals() for t in ts]))
    else:
        combos = [[t.vals()[(k * (1 + 2 * j) + j) % len(t.vals())] for j, t in enumerate(ts)] for k in range(2 * n)]
    T._vals = [V("(%s)" % ", ".join(v.rs for v in c), None if any(v.cpp is None for v in c) else T.cx + "(%s)" % ", ".join(v.cpp for v in c),
                 "(%s)" % ",".join(v.ser for v in c)) for c in combos]
    return T


CLASSES = ("obj", "cpy", "sho", "aro")


def _seqs(t):
    vs = t.vals()
    return [[], [vs[0]], list(vs), [vs[-1], vs[0], vs[-1]]]


def vec(t):
    T = Ty("V" + t.name, "Vec<%s>" % t.rs, None, t.inp, t.out, "vec", [t], "Vec<%s>" % t.ret)
    T.cx = "decltype(W::r_%s(0))" % T.name
    T._vals = [V("vec![%s]" % ", ".join(v.rs for v in q), "W::r_%s(%d)" % (T.name, k), "[%s]" % ",".join(v.ser for v in q)) for k, q in enumerate(_seqs(t))]
    T.need = (T,)
    return T


def slc(t, mut=False):
    m, mr = ("m", "mut ") if mut else ("", "")
    v = vec(t)
    T = Ty("L" + m + t.name, "&%s[%s]" % (mr, t.rs), None, t.inp, t.out, "slc", [t], "&'static %s[%s]" % (mr, t.ret))
    if t.name in CLASSES:
        get = "as_slice%s()" % ("_mut" if mut else "")
        T.cx = "decltype(std::declval<%s &>().%s)" % (v.cx, get)
    else:
        get = None
        T.cx = "RustSlice<%s%s>" % ("" if mut else "const ", t.cx)
    T._vals = [V("leakv(vec![%s])" % ", ".join(x.rs for x in q), "keep(W::r_%s(%d)).%s" % (v.name, k, get) if get else "slice_of<%s>(keep(W::r_%s(%d)))" % (T.cx, v.name, k), "[%s]" % ",".join(x.ser for x in q))
               for k, q in enumerate(_seqs(t))]
    T.need = (v,)
    return T


REPS = ["i32", "u8", "f64", "bool", "str", "string", "en", "v2", "obj", "objr", "cpy", "sho"]
ERRS = ["string", "en", "i64", "obj", "str", "v2", "bool"]


def matrix(L, deep=False):
    """every type of the matrix, accepted or not, by name"""
    out = {}

    def add(f, *a):
        try:
            t = f(*a)
        except TypeError:
            return
        if t.name not in out:
            out[t.name] = t
    for l in L.values():
        out[l.name] = l
        add(opt, l)
        for e in ERRS:
            add(res, l, L[e])
        add(res0, l)
        add(vec, l)
        add(slc, l)
        add(slc, l, True)
    for a in L.values():
        for b in L.values():
            add(tup, a, b)
    names = list(L)
    for k in range(len(names)):
        add(tup, L[names[k]], L[names[(k + 5) % len(names)]], L[names[(k + 11) % len(names)]])
    R = [L[n] for n in REPS]
    d1 = []
    for l in R:
        d1 += [opt(l), res0(l), vec(l), slc(l), slc(l, True), tup(l, L["i32"]), tup(L["bool"], l), tup(l, L["u8"], l), res(l, L["string"]), res(L["i32"], l)]
    for t in d1:
        add(opt, t)
        add(res, t, L["string"])
        add(res, L["i64"], t)
        add(res0, t)
        add(tup, t, L["u8"])
        add(tup, L["string"], t)
        add(tup, L["i32"], t, L["str"])
        add(vec, t)
        add(slc, t)
    if deep:
        d2 = [opt(tup(l, opt(L["i32"]))) for l in R] + [res(opt(tup(l, L["str"])), L["string"]) for l in R] + [tup(opt(l), res(l, L["en"])) for l in R] + \
             [res(opt(l), tup(L["en"], opt(L["string"]))) for l in R] + [opt(res(vec(l), L["string"])) for l in R] + [tup(vec(l), opt(vec(l))) for l in R] + \
             [opt(opt(opt(l))) for l in R] + [res(res(l, L["en"]), L["string"]) for l in R] + [tup(tup(l, L["i32"]), tup(L["bool"], l)) for l in R] + [res0(opt(tup(l, l))) for l in R]
        for t in d2:
            add(lambda x: x, t)
    return out
