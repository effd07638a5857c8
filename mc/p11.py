"""P11: every enumeration shape up to a bound, every item in every position and direction, and every foreign
code of a menu that names no item, for C++, Java and Python."""
import itertools, os
from common import *
import cppkit, jkit, pykit

LEVEL = "model_checking"
ASSUMPTIONS = ["codes that name no item are taken from a menu (neighbours of every constant and discriminant, powers of two)",
               "Python: a bool is an int, so True and False are not counted as foreign values outside the enumeration"]


class Shape:
    def __init__(self, k, variants, items, disc=None, repr_="", ename=None, derive="Clone, Copy, PartialEq, Debug", style="path"):
        self.k, self.variants, self.items, self.disc, self.repr, self.derive, self.style = k, variants, items, disc, repr_, derive, style
        self.e = ename or "E%d" % k       # items: [(foreign name, variant number)] in description order
        self.n = len(items)

    def text(self):
        return "%s{%s}%s%s" % (self.e, ",".join("%s=%s" % (f, self.variants[v]) for f, v in self.items), self.disc or "", self.repr)

    def rust(self):
        return "%s%spub enum %s { %s }\n" % ("#[derive(%s)] " % self.derive if self.derive else "", "#[repr(%s)] " % self.repr if self.repr else "", self.e,
                                             ", ".join(v + (" = %d" % self.disc[j] if self.disc else "") for j, v in enumerate(self.variants)))

    def desc(self):
        its = []
        for f, v in self.items:
            if self.style == "short" and f == self.variants[v]:
                its.append(f + ",")
            elif self.style == "module":
                its.append("%s = alias%d::%s::%s," % (f, self.k, self.e, self.variants[v]))
            else:
                its.append("%s = %s::%s," % (f, self.e, self.variants[v]))
        return "foreign_enum!(enum %s { %s });\n" % (self.e, " ".join(its))

    def discs(self):
        return list(self.disc) if self.disc else list(range(len(self.variants)))


DISC = {2: [None, (1, 2), (2, 1), (-1, 0), (0, -1), (5, 4000000000), (-128, 127), (1000000, 3)],
        3: [None, (3, 2, 1), (1, 2, 3), (-2, -1, 0), (2, 0, 1), (1, 2, 0)],
        4: [None]}


def shapes(r, thorough):
    out = []

    def add(vs, its, **kw):
        k = len(out)
        out.append(Shape(k, ["%s%d" % (v, k) for v in vs], [("%s%d" % (f, k), v) for f, v in its], **kw))

    P = ["Va", "Vb", "Vc", "Vd"]
    for d in (None, (7,), (-1,)):
        add(P[:1], [("Va", 0)], disc=d)
    add(P[:1], [("Other", 0)], derive="")
    styles = ("path", "short", "module")
    for n in (2, 3, 4):
        perms = list(itertools.permutations(range(n)))
        for d in DISC[n]:
            for o in perms:
                for s in perms:
                    if not thorough:
                        if n == 4 and o != perms[0] and s != perms[0]:
                            continue
                        if n == 3 and d not in DISC[3][:2] and (o not in perms[::5] or s not in perms[::3]):
                            continue
                    der = {0: "Clone, Copy, PartialEq, Debug", 1: "Clone", 2: ""}[len(out) % 3]
                    add(P[:n], [(P[s[v]], v) for v in o], disc=d, derive=der, style=styles[len(out) % 3])
    for rp, d in (("u8", (255, 0)), ("i8", (-128, 127)), ("u16", (65535, 255)), ("i64", (-9000000000, 9000000000)), ("u32", (4294967295, 0)), ("u64", (18446744073709551615, 1)), ("i32", (-2147483648, 2147483647))):
        add(P[:2], [("Lo", 0), ("Hi", 1)], disc=d, repr_=rp)
    for d in ((0, 1 << 32), (1 << 32, 5), (1 << 33, (1 << 33) + 1)):   # distinct discriminants, equal low halves
        add(P[:2], [("Lo", 0), ("Hi", 1)], disc=d)
    add(P[:2], [("Lo", 0), ("Hi", 1)], disc=(1 << 32, 0), repr_="u64")
    for m in (10, 40, 300):
        add(["W%dx" % j for j in range(m)], [("I%dx" % ((j * 7) % m if m % 7 else j), (m - 1 - j)) for j in range(m)])
    return out


def names(first):
    """awkward but legal names, one program each"""
    out = []
    k = first
    for tag, en in (("case", [("Na", ["Ab", "AB", "ab", "aB"])]), ("underscore", [("N_b", ["_x", "x_", "X__Y", "x_1"])]),
                    ("split", [("A", ["B_C", "B"]), ("A_B", ["C", "D"])]), ("enum_case", [("Foo", ["K1", "K2"]), ("FOO", ["K3", "K4"])]),
                    ("lower", [("lower", ["one", "two"])]), ("digits", [("E9", ["I1", "I11", "I111"])]),
                    ("like_glue", [("Index", ["index", "x", "self_", "env", "py", "getValue", "fromInt"])]), ("value", [("Value", ["value", "other"])]), ("snake", [("FooBar", ["J1", "J2"]), ("Foo_Bar", ["J3", "J4"])])):
        sh = []
        for e, its in en:
            sh.append(Shape(k, ["R%d" % j for j in range(len(its))], [(f, len(its) - 1 - j) for j, f in enumerate(its)], ename=e))
            k += 1
        out.append((tag, sh))
    return out


UNNAMED = {("java", "enum_case"), ("python", "enum_case"), ("python", "snake")}   # refused by the generator or by rustc: P18


# ---- the Rust side, common
def rust_common(shs, lang):
    rs = "#![allow(warnings)]\n" if False else ""
    rs += "use std::fmt::Write as _;\n"
    for s in shs:
        k, e = s.k, s.e
        rs += s.rust()
        rs += "pub mod alias%d { pub use super::%s; }\n" % (k, e)
        rs += "pub fn ix%d(x: &%s) -> i32 { match x { %s } }\n" % (k, e, ", ".join("%s::%s => %d" % (e, v, j) for j, v in enumerate(s.variants)))
        rs += "pub fn at%d(i: i32) -> %s { match i { %s, _ => panic!(\"bad test index\") } }\n" % (k, e, ", ".join("%d => %s::%s" % (j, e, v) for j, v in enumerate(s.variants)))
        rs += "pub struct H%d { x: %s, y: i32 }\nimpl H%d { pub fn make(x: %s, y: i32) -> H%d { H%d { x, y } } pub fn get(&self) -> %s { at%d(ix%d(&self.x)) } pub fn set(&mut self, x: %s) -> i32 { self.x = x; self.y } }\n" % (k, e, k, e, k, k, e, k, k, e)
    return rs


def decls(s, t, lang):
    """methods of class W<k>: (name, arguments, result, Rust body); t is another shape of the program"""
    k, e, f = s.k, s.e, t.e
    m = [("arg", "x: %s" % e, "i32", "ix%d(&x)" % k), ("ret", "i: i32", e, "at%d(i)" % k), ("idn", "x: %s" % e, e, "x"),
         ("mix", "a: i32, x: %s, b: bool, y: %s, c: i64, z: %s" % (e, f, e), "String", 'format!("{},{},{},{},{},{}", a, ix%d(&x), b, ix%d(&y), c, ix%d(&z))' % (k, t.k, k)),
         ("oarg", "x: Option<%s>" % e, "i32", "x.map(|x| ix%d(&x)).unwrap_or(-1)" % k), ("oret", "i: i32", "Option<%s>" % e, "if i < 0 { None } else { Some(at%d(i)) }" % k),
         ("rret", "i: i32", "Result<%s, String>" % e if lang != "python" else "Result<%s, MyErr>" % e, ('if i < 0 { Err("no".to_string()) } else { Ok(at%d(i)) }' if lang != "python" else 'if i < 0 { Err(MyErr) } else { Ok(at%d(i)) }') % k)]
    if lang == "cpp":
        m += [("eret", "i: i32", "Result<i32, %s>" % e, "if i < 0 { Ok(7) } else { Err(at%d(i)) }" % k), ("earg", "x: Result<%s, String>" % e, "i32", "x.map(|x| ix%d(&x)).unwrap_or(-1)" % k),
              ("fret", "i: i32", "Result<(), %s>" % e, "if i < 0 { Ok(()) } else { Err(at%d(i)) }" % k),
              ("tret", "i: i32, j: i32", "(%s, i32, %s)" % (e, f), "(at%d(i), 5, at%d(j))" % (k, t.k)), ("targ", "x: (%s, %s)" % (f, e), "i32", "ix%d(&x.0) * 1000 + ix%d(&x.1)" % (t.k, k))]
    if lang == "python":
        m += [("varg", "x: Vec<%s>" % e, "i32", "x.iter().fold(1, |a, x| a * 64 + ix%d(x))" % k), ("vret", "i: i32, j: i32", "Vec<%s>" % e, "vec![at%d(i), at%d(j), at%d(i)]" % (k, k, k)),
              ("vov", "x: Option<Vec<%s>>" % e, "Option<Vec<%s>>" % e, "x"), ("tret", "i: i32, j: i32", "(%s, i32, %s)" % (e, f), "(at%d(i), 5, at%d(j))" % (k, t.k)),
              ("sarg", "x: &[%s]" % e, "i32", "x.iter().fold(1, |a, x| a * 64 + ix%d(x))" % k), ("rarg", "x: &%s" % e, "i32", "ix%d(x)" % k)]
    if lang in ("cpp", "java"):
        m += [("call", "c: Box<dyn T%d>, i: i32, j: i32" % k, "()", "c.one(at%d(i)); c.two(11, at%d(j), at%d(i), true);" % (t.k, k, k) if False else "c.one(at%d(i)); c.two(11, at%d(i), true, at%d(j));" % (k, k, t.k))]
    if lang == "cpp":
        m += [("back", "c: Box<dyn T%d>, i: i32" % k, "i32", "let v = c.three(i); ix%d(&v)" % k)]
    return m


CLASS = {"cpp": "foreign_class!(class H%(k)d { self_type H%(k)d; constructor H%(k)d::make(x: %(e)s, y: i32) -> H%(k)d; fn H%(k)d::get(&self) -> %(e)s; fn H%(k)d::set(&mut self, x: %(e)s) -> i32; });\n"}


def program(shs, lang):
    desc = "".join(s.desc() for s in shs)
    rs = rust_common(shs, lang)
    if lang == "python":
        rs += "#[derive(Debug)] pub struct MyErr; impl std::fmt::Display for MyErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(\"no\") } } impl std::error::Error for MyErr {}\n"
    for j, s in enumerate(shs):
        t = shs[(j + 1) % len(shs)]
        if lang in ("cpp", "java"):
            desc += "foreign_callback!(callback C%d { self_type T%d; one = T%d::one(&self, x: %s); two = T%d::two(&self, a: i32, x: %s, b: bool, y: %s); %s });\n" % (
                s.k, s.k, s.k, s.e, s.k, s.e, t.e, "three = T%d::three(&self, i: i32) -> %s;" % (s.k, s.e) if lang == "cpp" else "")
            rs += "pub trait T%d { fn one(&self, x: %s); fn two(&self, a: i32, x: %s, b: bool, y: %s); %s }\n" % (s.k, s.e, s.e, t.e, "fn three(&self, i: i32) -> %s;" % s.e if lang == "cpp" else "")
    for j, s in enumerate(shs):
        t = shs[(j + 1) % len(shs)]
        ms = decls(s, t, lang)
        desc += "foreign_class!(class W%d { %s });\n" % (s.k, " ".join("fn w%d::%s(%s) -> %s;" % (s.k, n, a, o) for n, a, o, _ in ms))
        rs += "#[allow(unused)] pub mod w%d { use super::*; %s }\n" % (s.k, " ".join("pub fn %s(%s) -> %s { %s }" % m for m in ms))
        desc += CLASS["cpp"] % dict(k=s.k, e=s.e)
    return desc, rs


def codes(s, consts):
    """foreign codes that name no item"""
    c = set(range(0, 4)) | {s.n, s.n + 1, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1}
    for d in s.discs()[:6] + list(consts)[:6]:
        c |= {d % 2 ** 32, (d + 1) % 2 ** 32, (d - 1) % 2 ** 32}
    return sorted(c - {x % 2 ** 32 for x in consts})


def some(s):
    """items probed in pairs: all of a small enumeration, a spread of a large one"""
    return s.items if s.n <= 40 else s.items[:8] + s.items[250:262] + s.items[-8:]


# ---- C++
def cpp_main(shs, chdr=True):
    o = ['#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <cstring>\n#include <vector>\n#include <memory>\n#include <unistd.h>\n#include <sys/wait.h>\n#include <fcntl.h>\n']
    for s in shs:
        o.append('#include "%s.hpp"\n%s#include "W%d.hpp"\n#include "H%d.hpp"\n#include "C%d.hpp"\n' % (s.e, '#include "c_%s.h"\n' % s.e if chdr else "", s.k, s.k, s.k))
    o.append(r'''
static long n;
static void chk(const char *w, long k, const std::string &got, const std::string &want) { ++n; if (got != want) std::printf("VIOL\t%s\titem %ld arrived as %s, expected %s\t-\n", w, k, got.c_str(), want.c_str()); }
static void chk(const char *w, long k, long got, long want) { chk(w, k, std::to_string(got), std::to_string(want)); }
template <class F> static void refused(const char *w, unsigned code, F f) {
  ++n; std::fflush(stdout);
  int p[2]; if (pipe(p)) std::abort();
  pid_t c = fork();
  if (!c) { int z = open("/dev/null", O_WRONLY); dup2(z, 2); long v = f(); if (write(p[1], &v, sizeof v) != sizeof v) _exit(3); _exit(0); }
  close(p[1]); long v = -99; bool got = read(p[0], &v, sizeof v) == sizeof v; close(p[0]);
  int st; waitpid(c, &st, 0);
  if (got) std::printf("VIOL\t%s\tcode %u names no item, but arrived as item %ld\t-\n", w, code, v);
  else if (!WIFSIGNALED(st) || WTERMSIG(st) == SIGSEGV) std::printf("VIOL\t%s\tcode %u: neither refused nor accepted: status %x\t-\n", w, code, st);
}
template <class E> static E raw(unsigned c) { E e; static_assert(sizeof e == sizeof c, ""); std::memcpy(&e, &c, sizeof c); return e; }
''')
    o.append("static std::string log_;\n")
    for j, s in enumerate(shs):
        t = shs[(j + 1) % len(shs)]
        o.append("struct K%d : fg::C%d { unsigned bad = 0; bool use_bad = false;\n  void one(fg::%s x) const noexcept override { log_ += \"1:\" + std::to_string(int(x)) + \";\"; }\n  void two(int32_t a, fg::%s x, bool b, fg::%s y) const noexcept override { log_ += \"2:\" + std::to_string(a) + \",\" + std::to_string(int(x)) + \",\" + std::to_string(b) + \",\" + std::to_string(int(y)) + \";\"; }\n  fg::%s three(int32_t i) const noexcept override { if (use_bad) return raw<fg::%s>(bad); switch (i) { %s default: std::abort(); } }\n};\n" % (
            s.k, s.k, s.e, s.e, t.e, s.e, s.e, " ".join("case %d: return fg::%s;" % (v, f) for f, v in s.items)))
    for j, s in enumerate(shs):
        t = shs[(j + 1) % len(shs)]
        k = s.k
        b = ["static void t%d() {\n" % k]
        w = lambda p: '"%s/%s"' % (s.text()[:60], p)
        # distinct constants, C header agrees
        cs = ["fg::%s" % f for f, _ in s.items]
        b.append("  { const int c[] = {%s}; for (int i = 0; i < %d; ++i) for (int j = 0; j < i; ++j) chk(%s, i, long(c[i] != c[j]), 1L); }\n" % (", ".join("int(%s)" % c for c in cs), s.n, w("distinct")))
        for f, v in s.items if chdr else ():
            b.append("  chk(%s, %d, long(::%s_%s), long(fg::%s));\n" % (w("c_header"), v, s.e, f, f))
        for f, v in s.items:
            c = "fg::" + f
            b.append("  chk(%s, %d, W%d_::arg(%s), %d); chk(%s, %d, long(W%d_::ret(%d)), long(%s)); chk(%s, %d, long(W%d_::idn(%s)), long(%s));\n" % (w("arg"), v, k, c, v, w("ret"), v, k, v, c, w("identity"), v, k, c, c))
            b.append("  chk(%s, %d, W%d_::oarg(%s), %d); { auto q = W%d_::oret(%d); chk(%s, %d, q ? long(*q) : -1L, long(%s)); }\n" % (w("option_arg"), v, k, c, v, k, v, w("option_ret"), v, c))
            b.append("  { auto q = W%d_::rret(%d); chk(%s, %d, q.index() == 0 ? long(std::get<fg::%s>(q)) : -1L, long(%s)); }\n" % (k, v, w("result_ret"), v, s.e, c))
            b.append("  { auto q = W%d_::eret(%d); chk(%s, %d, q.index() == 1 ? long(std::get<fg::%s>(q)) : -1L, long(%s)); }\n" % (k, v, w("error_ret"), v, s.e, c))
            b.append("  { auto q = W%d_::fret(%d); chk(%s, %d, q ? long(*q) : -1L, long(%s)); }\n" % (k, v, w("unit_error_ret"), v, c))
            b.append("  chk(%s, %d, W%d_::earg(%s), %d);\n" % (w("result_arg"), v, k, c, v))
            b.append("  { fg::H%d h(%s, %d); chk(%s, %d, long(h.get()), long(%s)); }\n" % (k, c, v, w("constructor"), v, c))
            b.append("  { K%d cb; chk(%s, %d, W%d_::back(std::make_unique<K%d>(), %d), %d); }\n" % (k, w("callback_result"), v, k, k, v, v))
        b.append("  chk(%s, -1, W%d_::oarg(std::nullopt), -1); chk(%s, -1, long(bool(W%d_::oret(-1))), 0L); chk(%s, -1, long(W%d_::rret(-1).index()), 1L); chk(%s, -1, long(W%d_::eret(-1).index()), 0L); chk(%s, -1, long(bool(W%d_::fret(-1))), 0L);\n" % (
            w("option_arg"), k, w("option_ret"), k, w("result_ret"), k, w("error_ret"), k, w("unit_error_ret"), k))
        b.append("  fg::H%d h(fg::%s, 41);\n" % (k, s.items[0][0]))
        S2, T2 = (some(s), some(t)) if s.n <= 4 else (some(s)[:12], some(t)[:3])
        for f, v in S2:
            b.append("  chk(%s, %d, h.set(fg::%s), 41); chk(%s, %d, long(h.get()), long(fg::%s));\n" % (w("method"), v, f, w("method"), v, f))
            for g, u in T2:
                b.append("  log_.clear(); W%d_::call(std::make_unique<K%d>(), %d, %d); chk(%s, %d, log_, \"1:\" + std::to_string(int(fg::%s)) + \";2:11,\" + std::to_string(int(fg::%s)) + \",1,\" + std::to_string(int(fg::%s)) + \";\");\n" % (k, k, v, u, w("callback_args"), v, f, f, g))
                b.append("  { auto q = W%d_::tret(%d, %d); chk(%s, %d, std::to_string(int(std::get<0>(q))) + \",\" + std::to_string(std::get<1>(q)) + \",\" + std::to_string(int(std::get<2>(q))), std::to_string(int(fg::%s)) + \",5,\" + std::to_string(int(fg::%s))); }\n" % (k, v, u, w("tuple_ret"), v, f, g))
                b.append("  chk(%s, %d, W%d_::targ({fg::%s, fg::%s}), %d);\n" % (w("tuple_arg"), v, k, g, f, u * 1000 + v))
                z = s.items[(v + 1) % s.n]
                b.append("  chk(%s, %d, W%d_::mix(-3, fg::%s, true, fg::%s, 1LL << 40, fg::%s).to_std_string(), \"-3,%d,true,%d,1099511627776,%d\");\n" % (w("mixed_args"), v, k, f, g, z[0], v, u, z[1]))
        if s.n <= 4 or s.n >= 300:
            b.append("  for (unsigned c : {%s}) { bool known = false; for (unsigned q : {%s}) known |= q == c; if (known) continue;\n" % (", ".join("%du" % c for c in codes(s, [])), ", ".join("unsigned(%s)" % c for c in cs)))
            b.append("    refused(%s, c, [&] { return long(W%d_::arg(raw<fg::%s>(c))); });\n" % (w("no_item/arg"), k, s.e))
            if k % 3 == 0 or s.n >= 300:
                b.append("    refused(%s, c, [&] { return long(W%d_::oarg(raw<fg::%s>(c))); }); refused(%s, c, [&] { return long(h.set(raw<fg::%s>(c))) + long(h.get()) * 100; });\n" % (w("no_item/option"), k, s.e, w("no_item/method"), s.e))
                b.append("    refused(%s, c, [&] { auto cb = std::make_unique<K%d>(); cb->use_bad = true; cb->bad = c; return long(W%d_::back(std::move(cb), 0)); });\n" % (w("no_item/callback_result"), k, k))
            b.append("  }\n")
        b.append("}\n")
        o.append("".join(b).replace("W%d_::" % k, "fg::W%d::" % k))
    o.append("int main() { %s std::printf(\"STATS\\tcpp\\tsteps=%%ld\\tseq=%%ld\\n\", n, n); }\n" % " ".join("t%d();" % s.k for s in shs))
    return "".join(o)


# ---- Java
def java_main(shs, name="Main"):
    o = ['package org.fg;\nimport java.util.*;\npublic final class %s {\n  static long n;\n  static void chk(String w, int k, Object got, Object want) { ++n; if (!Objects.equals(got, want)) System.out.println("VIOL\\t" + w + "\\titem " + k + " arrived as " + got + ", expected " + want + "\\t-"); }\n  static StringBuilder log = new StringBuilder();\n' % name,
         '''  interface Act { Object run() throws Throwable; }
  static void refused(String w, Object code, Act a) { ++n; Object v; try { v = a.run(); } catch (Throwable e) { return; } System.out.println("VIOL\\t" + w + "\\t" + code + " names no item, but arrived as " + v + "\\t-"); }
  static Object fromInt(Class<?> c, int x) throws Throwable { java.lang.reflect.Method m = c.getDeclaredMethod("fromInt", int.class); m.setAccessible(true); return m.invoke(null, x); }
  static java.lang.reflect.Method nat(Class<?> c, String n) { for (java.lang.reflect.Method m : c.getDeclaredMethods()) if (java.lang.reflect.Modifier.isNative(m.getModifiers()) && m.getName().endsWith(n) && m.getParameterCount() == 1 && m.getParameterTypes()[0] == int.class) { m.setAccessible(true); return m; } return null; }
''']
    for j, s in enumerate(shs):
        t = shs[(j + 1) % len(shs)]
        o.append("  static final class K%d implements C%d { public void one(%s x) { log.append(\"1:\" + x.name() + \";\"); } public void two(int a, %s x, boolean b, %s y) { log.append(\"2:\" + a + \",\" + x.name() + \",\" + b + \",\" + y.name() + \";\"); } }\n" % (s.k, s.k, s.e, s.e, t.e))
        b = ["  static void t%d() throws Throwable {\n" % s.k]
        k, e = s.k, s.e
        w = lambda p: '"%s/%s"' % (s.text()[:60], p)
        b.append("    chk(%s, 0, Arrays.toString(%s.values()), \"[%s]\");\n    { Set<Integer> u = new HashSet<>(); for (%s x : %s.values()) { u.add(x.getValue()); chk(%s, x.ordinal(), fromInt(%s.class, x.getValue()), x); } chk(%s, 0, u.size(), %d); }\n" % (
            w("items"), e, ", ".join(f for f, _ in s.items), e, e, w("from_int"), e, w("distinct"), s.n))
        ns = s.items if s.n <= 40 else some(s)
        for f, v in ns:
            c = "%s.%s" % (e, f)
            b.append("    chk(%s, %d, W%d.arg(%s), %d); chk(%s, %d, W%d.ret(%d), %s); chk(%s, %d, W%d.idn(%s), %s); chk(%s, %d, W%d.oarg(%s), %d); chk(%s, %d, W%d.oret(%d), Optional.of(%s)); chk(%s, %d, W%d.rret(%d), %s);\n" % (
                w("arg"), v, k, c, v, w("ret"), v, k, v, c, w("identity"), v, k, c, c, w("option_arg"), v, k, c, v, w("option_ret"), v, k, v, c, w("result_ret"), v, k, v, c))
            b.append("    { H%d h = new H%d(%s, %d); chk(%s, %d, h.get(), %s); h.delete(); }\n" % (k, k, c, v, w("constructor"), v, c))
        b.append("    chk(%s, -1, W%d.oarg(null), -1); chk(%s, -1, W%d.oret(-1), Optional.empty()); { String q; try { q = \"\" + W%d.rret(-1); } catch (Exception x) { q = x.getMessage(); } chk(%s, -1, q, \"no\"); }\n" % (w("option_arg"), k, w("option_ret"), k, k, w("result_ret")))
        b.append("    H%d h = new H%d(%s.%s, 41);\n" % (k, k, e, s.items[0][0]))
        S2, T2 = (some(s), some(t)) if s.n <= 4 else (some(s)[:12], some(t)[:3])
        for f, v in S2:
            b.append("    chk(%s, %d, h.set(%s.%s), 41); chk(%s, %d, h.get(), %s.%s);\n" % (w("method"), v, e, f, w("method"), v, e, f))
            for g, u in T2:
                b.append("    log.setLength(0); W%d.call(new K%d(), %d, %d); chk(%s, %d, log.toString(), \"1:%s;2:11,%s,true,%s;\");\n" % (k, k, v, u, w("callback_args"), v, f, f, g))
                z = s.items[(v + 1) % s.n]
                b.append("    chk(%s, %d, W%d.mix(-3, %s.%s, true, %s.%s, 1L << 40, %s.%s), \"-3,%d,true,%d,1099511627776,%d\");\n" % (w("mixed_args"), v, k, e, f, t.e, g, e, z[0], v, u, z[1]))
        b.append("    for (long c : new long[]{%s}) { boolean known = false; for (%s x : %s.values()) known |= x.getValue() == (int) c; if (!known) refused(%s, c, () -> fromInt(%s.class, (int) c)); }\n" % (", ".join("%dL" % c for c in codes(s, [])), e, e, w("no_item/from_int"), e))
        b.append("    refused(%s, \"null\", () -> W%d.arg(null)); refused(%s, \"null\", () -> h.set(null)); refused(%s, \"null\", () -> new H%d((%s) null, 1).get());\n  }\n" % (w("no_item/null"), k, w("no_item/null_method"), w("no_item/null_constructor"), k, e))
        o.append("".join(b))
    o.append('''  public static void main(String[] a) throws Throwable {
    System.load(System.getProperty("fg.lib"));
    if (a.length == 3) {   // a native function gets a code that names no item: ends the process, or an exception
      java.lang.reflect.Method m = nat(Class.forName("org.fg." + a[0]), a[1]);
      if (m == null) { System.out.println("SKIP"); Runtime.getRuntime().halt(0); }
      try { System.out.println("WENT " + m.invoke(null, (int) Long.parseLong(a[2]))); } catch (Throwable e) { System.out.println("THROWN"); }
      System.out.flush();
      Runtime.getRuntime().halt(0);
    }
''')
    o.append("    %s\n    System.out.println(\"STATS\\tjava\\tsteps=\" + n + \"\\tseq=\" + n);\n    System.out.flush();\n    Runtime.getRuntime().halt(0);\n  }\n}\n" % " ".join("t%d();" % s.k for s in shs))
    return "".join(o)


# ---- Python
PYMAIN = r'''
import json, sys, itertools
import fgmod
n = 0
def chk(w, k, got, want):
    global n
    n += 1
    if type(got) is not type(want) or got != want: print("VIOL\t%s\titem %s arrived as %r, expected %r\t-" % (w, k, got, want))
def refused(w, code, f):
    global n
    n += 1
    try: v = f()
    except BaseException as e:
        if not isinstance(e, (ValueError, OverflowError, TypeError)): print("VIOL\t%s\tcode %r: %r\t-" % (w, code, e))
        return
    print("VIOL\t%s\tcode %r names no item, but arrived as %r\t-" % (w, code, v))
for s in json.load(open(sys.argv[1])):
    W, H, E, F = (getattr(fgmod, x) for x in ("W%d" % s["k"], "H%d" % s["k"], s["e"], s["f"]))
    T = s["text"] + "/"
    items = [(getattr(E, f), v, f) for f, v in s["items"]]
    other = [(getattr(F, f), v, f) for f, v in s["other"]]
    chk(T + "distinct", 0, len({c for c, _, _ in items}), len(items))
    for c, v, f in items:
        chk(T + "arg", v, W.arg(c), v)
        chk(T + "ret", v, W.ret(v), c)
        chk(T + "identity", v, W.idn(c), c)
        chk(T + "option_arg", v, W.oarg(c), v)
        chk(T + "option_ret", v, W.oret(v), c)
        chk(T + "result_ret", v, W.rret(v), c)
        chk(T + "ref_arg", v, W.rarg(c), v)
        h = H(c, v)
        chk(T + "constructor", v, h.get(), c)
    chk(T + "option_arg", -1, W.oarg(None), -1)
    chk(T + "option_ret", -1, W.oret(-1), None)
    chk(T + "option_vec", -1, W.vov(None), None)
    chk(T + "vec_arg", -1, W.varg([]), 1)
    try: q = W.rret(-1)
    except fgmod.Error as e: q = str(e)
    chk(T + "result_ret", -1, q, "no")
    h = H(items[0][0], 41)
    for c, v, f in items if len(items) <= 40 else items[:12] + items[-4:]:
        chk(T + "method", v, h.set(c), 41)
        chk(T + "method", v, h.get(), c)
        for d, u, g in items[:4]:
            chk(T + "vec_arg", v, W.varg([c, d, c]), ((64 + v) * 64 + u) * 64 + v)
            chk(T + "slice_arg", v, W.sarg([c, d]), (64 + v) * 64 + u)
            chk(T + "vec_ret", v, W.vret(v, u), [c, d, c])
            chk(T + "option_vec", v, W.vov([c, d, d]), [c, d, d])
        for d, u, g in other[:4]:
            chk(T + "tuple_ret", v, W.tret(v, u), (c, 5, d))
            z = items[(v + 1) % len(items)]
            chk(T + "mixed_args", v, W.mix(-3, c, True, d, 1 << 40, z[0]), "-3,%d,true,%d,1099511627776,%d" % (v, u, z[1]))
    consts = {c for c, _, _ in items}
    for c in [c for c in s["codes"] if c not in consts] + [-1, -2, 1 << 32, (1 << 32) + 1, 1 << 64, "0", None, 0.0, E] + [c + (1 << 32) for c in list(consts)[:4]] + [c - (1 << 32) for c in list(consts)[:4]] + [f for _, _, f in items[:2]]:
        if not isinstance(c, int) or c not in consts:
            refused(T + "no_item/arg", c, lambda: W.arg(c))
            refused(T + "no_item/method", c, lambda: h.set(c))
            refused(T + "no_item/constructor", c, lambda: H(c, 1).get())
            refused(T + "no_item/vec", c, lambda: W.varg([items[0][0], c]))
            refused(T + "no_item/slice", c, lambda: W.sarg([c]))
            if c is not None: refused(T + "no_item/option", c, lambda: W.oarg(c))
    print("STATE\t%s\t%d" % (s["text"], n))
print("STATS\tpython\tsteps=%d\tseq=%d" % (n, n))
'''


def build(r, lang, tag, shs):
    d = os.path.join(r.work, "%s-%s" % (lang, tag))
    desc, rs = program(shs, lang)
    if lang == "cpp":
        b = cppkit.build(r, d, desc, rs, write(d + "/main.cpp", cpp_main(shs, not tag.endswith("split"))), opt="-O0", asan=False)
        return b, (lambda: run([b.exe], timeout=800))
    if lang == "java":
        b = jkit.build(r, d, desc, rs, {"org/fg/Main.java": java_main(shs)})
        return b, (lambda: run(b.cmd("org.fg.Main"), timeout=800))
    b = pykit.build(r, d, desc, rs)
    write(d + "/main.py", PYMAIN)
    data = [dict(k=s.k, e=s.e, f=shs[(j + 1) % len(shs)].e, text=s.text()[:60], items=s.items, other=shs[(j + 1) % len(shs)].items, codes=codes(s, [])) for j, s in enumerate(shs)]
    write(d + "/shapes.json", json.dumps(data))
    return b, (lambda: b.run(d + "/main.py", d + "/shapes.json", timeout=800))


def explore(r, lang, tag, shs):
    b, go = build(r, lang, tag, shs)
    if b.problem and len(shs) > 1 and not tag.startswith("names"):
        # narrow it down while one half is fine
        h = len(shs) // 2
        two = [(shs[:h], tag + "l"), (shs[h:], tag + "r")]
        bs = [build(r, lang, t, x) for x, t in two]
        if sum(1 for q, _ in bs if q.problem) == 1:
            out = []
            for (x, t), (q, g) in zip(two, bs):
                out += explore(r, lang, t, x) if q.problem else [(lang, t, x, q, g())]
            return out
    return [(lang, tag, shs, b, None if b.problem else go())]


def check(r):
    shs = shapes(r, r.thorough)
    r.extra["shapes"] = len(shs)
    per = 24
    work = []
    for lang in ("cpp", "java", "python"):
        work += [(lang, "c%d" % c, shs[c:c + per]) for c in range(0, len(shs), per)]
        work += [(lang, "names_" + tag, sh) for tag, sh in names(len(shs)) if (lang, tag) not in UNNAMED]
    work.sort(key=lambda w: -len(w[2]))
    keep = {}
    for res in pmap(lambda w: explore(r, *w), work):
        for lang, tag, sh, b, p in res:
            if b.problem:
                r.violation("%s/%s/%s" % (lang, tag if tag.startswith("names") else sh[0].text(), b.kind), "%s: %s" % (", ".join(s.text() for s in sh), b.problem), {"lang": lang, "shapes": [s.text() for s in sh]})
                continue
            for s in sh:
                r.state((lang, s.text()))
            keep.setdefault(lang, (b, sh))
            for l in p.stdout.splitlines():
                f = l.split("\t")
                if f[0] == "VIOL":
                    r.violation("%s/%s" % (lang, f[1]), f[2], {"lang": lang, "shapes": [s.text() for s in sh]})
                elif f[0] == "STATS":
                    q = dict(x.split("=") for x in f[2:])
                    r.transitions += int(q["steps"])
                    r.traces += int(q["seq"])
            if p.returncode or "STATS" not in p.stdout:
                r.violation("%s/%s/died" % (lang, tag), "the program died (rc=%s): %s %s" % (p.returncode, p.stdout[-300:], p.stderr[-1500:]), {"lang": lang})
    for s in shs[:200:20]:
        r.sample(s.text()[:120])
    # native Java functions given a code no Java item has
    if "java" in keep:
        b, sh = keep["java"]
        probes = [("W%d" % s.k, m, c) for s in sh[:: max(1, len(sh) // 4)] for m in ("arg",) for c in codes(s, range(s.n))[:: 3]]

        def one(q):
            return q, run(b.cmd("org.fg.Main", *q), timeout=100)
        for q, p in pmap(one, probes):
            r.transitions += 1
            if "WENT" in p.stdout:
                r.violation("java/native/%s_%s" % (q[0], q[2]), "code %s given to the native function of %s.%s names no item, but arrived as %s" % (q[2], q[0], q[1], p.stdout.strip()), {"probe": q})
            elif p.returncode == 0 and "SKIP" not in p.stdout and "THROWN" not in p.stdout:
                r.violation("java/native/%s_%s" % (q[0], q[2]), "no answer: %s %s" % (p.stdout, p.stderr[:500]))
