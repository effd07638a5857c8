"""P08: every value of the Java type matrix in every position and configuration; refused values as probes."""
import json, os
from common import *
import jkit, jvals
from jvals import V, Ty

LEVEL = "model_checking"
ASSUMPTIONS = ["integers, floats and strings by boundary values; floats compared bit for bit (NaN: the quiet one)", "dates by whole milliseconds, the resolution of java.util.Date"]
LT = re.compile(r"&(?!')")


def lt(t):
    return LT.sub("&'a ", t.rs)


def program(types, inst=True, ctors=True):
    D, R, J = [], [], []      # methods of W, Rust functions, Java statements
    ID, IR, C = [], [], []
    mk = []
    for t in types:
        n, vs, ov = t.name, t.v, t.outv
        pre = "for (int k = 0; k < %d; ++k) " % (len(vs))
        preo = "for (int k = 0; k < %d; ++k) " % (len(ov))

        def out(what, call, void=False, body=None):
            x = body or ('got = "u"; %s;' % call if void else "got = %s;" % (t.ser % call))
            return '{ String got; try { %s } catch (Throwable e) { got = S.ex(e); } S.chk("%s/%s", k, got, M_%s.o[k]); }' % (x, what, n, n)
        mk.append("class M_%s { static final String[] x = {%s}, o = {%s};\n%s}\n" % (
            n, ", ".join('"%s"' % v.ser for v in vs), ", ".join('"%s"' % v.ser for v in ov),
            "static %s mk(int k) { switch (k) { %s default: throw new Error(); } }\n" % (t.jin, " ".join("case %d: return %s;" % (k, v.j) for k, v in enumerate(vs))) if t.inp else ""))
        void = t.jout == "void"
        if t.out:
            D.append("fn w::r_%s(k: u32) -> %s;" % (n, t.rs))
            R.append("pub fn r_%s(k: u32) -> %s { match k { %s _ => panic!() } }" % (n, t.ret, " ".join("%d => %s," % (k, v.rs) for k, v in enumerate(ov))))
            J.append(preo + out("ret", "W.r_%s(k)" % n, void))
            if inst:
                ID.append("fn Inst::s_%s(&self, k: u32) -> %s;" % (n, t.rs))
                IR.append("pub fn s_%s(&self, k: u32) -> %s { w::r_%s(k) }" % (n, t.ret, n))
                J.append(preo + out("ret_method", "inst.s_%s(k)" % n, void))
        if t.throws and ctors and t.name in ("Ri32", "Rsi32"):
            pass
        if t.inp:
            D.append("fn w::a_%s(x: %s) -> String;" % (n, t.rs))
            R.append("pub fn a_%s(x: %s) -> String { x.ser() }" % (n, t.rs))
            J.append(pre + 'S.chk("arg/%s", k, W.a_%s(M_%s.mk(k)), M_%s.x[k]);' % (n, n, n, n))
            if inst:
                ID.append("fn Inst::m_%s(&self, _: u8, x: %s, _: i64) -> String;" % (n, t.rs))
                IR.append('pub fn m_%s(&self, y: u8, x: %s, z: i64) -> String { format!("{}|{}|{}|{}", self.tag, y, x.ser(), z) }' % (n, t.rs))
                J.append(pre + 'S.chk("method/%s", k, inst.m_%s((short) (k + 7), M_%s.mk(k), -5000000000L - k), "41|" + (k + 7) + "|" + M_%s.x[k] + "|" + (-5000000000L - k));' % (n, n, n, n))
            if t.out:
                D.append("fn w::i_%s(x: %s) -> %s;" % (n, t.rs, t.rs))
                R.append("pub fn i_%s<'a>(x: %s) -> %s { x }" % (n, lt(t), lt(t)))
                J.append(pre + '{ S.chk("identity/%s", k, %s, M_%s.x[k]); }' % (n, t.ser % ("W.i_%s(M_%s.mk(k))" % (n, n)), n))
                if inst:
                    ID.append("fn Inst::n_%s(&mut self, x: %s) -> %s;" % (n, t.rs, t.rs))
                    IR.append("pub fn n_%s<'a>(&mut self, x: %s) -> %s { self.calls += 1; x }" % (n, lt(t), lt(t)))
                    J.append(pre + '{ S.chk("identity_method/%s", k, %s, M_%s.x[k]); ++calls; }' % (n, t.ser % ("inst.n_%s(M_%s.mk(k))" % (n, n)), n))
            if ctors:
                C.append("foreign_class!(class K_%s { self_type K_%s; constructor K_%s::new(x: %s, y: u16) -> K_%s; fn K_%s::text(&self) -> String; });\n" % ((n,) * 3 + (t.rs, n, n)))
                R.append("pub struct K_%s(String); impl K_%s { pub fn new(x: %s, y: u16) -> K_%s { K_%s(format!(\"{}|{}\", x.ser(), y)) } pub fn text(&self) -> String { self.0.clone() } }" % (n, n, t.rs, n, n))
                er = "String" if len(n) % 2 else "&str"
                C.append("foreign_class!(class F_%s { self_type F_%s; constructor F_%s::may(x: %s, y: &str, z: bool) -> Result<F_%s, %s>; fn F_%s::text(&self) -> String; });\n" % (n, n, n, t.rs, n, er, n))
                R.append("pub struct F_%s(String); impl F_%s { pub fn may(x: %s, y: &str, z: bool) -> Result<F_%s, %s> { if z { Ok(F_%s(format!(\"{}/{}\", x.ser(), y))) } else { Err(%s) } } pub fn text(&self) -> String { self.0.clone() } }" % (n, n, t.rs, n, er.replace("&", "&'static "), n, 'format!("no {}", x.ser())' if er == "String" else 'Box::leak(format!("no {}", x.ser()).into_boxed_str())'))
                J.append(pre + '{ K_%s o = new K_%s(M_%s.mk(k), 65000 + k); S.chk("constructor/%s", k, o.text(), M_%s.x[k] + "|" + (65000 + k)); }' % (n, n, n, n, n))
                J.append(pre + '{ String got; try { got = new F_%s(M_%s.mk(k), "q", true).text(); } catch (Exception e) { got = "E" + e; } S.chk("fallible_constructor/%s", k, got, M_%s.x[k] + "/q"); }' % (n, n, n, n))
                J.append(pre + '{ String got; try { got = new F_%s(M_%s.mk(k), "q", false).text(); } catch (Exception e) { got = S.ex(e); } S.chk("failing_constructor/%s", k, got, "E(" + S.ser("no " + M_%s.x[k]) + ")"); }' % (n, n, n, n))
    W = "foreign_class!(class W {\n%s\n});\n" % "\n".join(D)
    I = "foreign_class!(class Inst { self_type Inst; constructor Inst::new(tag: i32) -> Inst; fn Inst::calls(&self) -> i32;\n%s\n});\n" % "\n".join(ID) if inst else ""
    rust = jvals.RUST + "#[allow(non_camel_case_types, non_snake_case)] pub mod w { use super::*;\n%s\n}\n#[allow(unused_imports)] use w::*;\n" % "\n".join(R)
    rust += "pub struct Inst { tag: i32, calls: i32 }\n#[allow(non_snake_case)] impl Inst { pub fn new(tag: i32) -> Inst { Inst { tag, calls: 0 } } pub fn calls(&self) -> i32 { self.calls }\n%s\n}\n" % "\n".join(IR)
    if inst:
        J.append('{ int k = 0; S.chk("calls", 0, "" + inst.calls(), "" + calls); }')
    return jvals.DESC + W + I + "".join(C), rust, main_java(mk, J, inst)


def main_java(mk, J, inst=True):
    fs = []
    for i in range(0, len(J), 20):
        fs.append("static void f%d() throws Throwable {\n%s\n}\n" % (i, "\n".join(J[i:i + 20])))
    main = "package org.fg;\npublic class Main {\n%sstatic int calls;\n%s\npublic static void main(String[] a) throws Throwable { System.load(System.getProperty(\"fg.lib\"));\n%s\n%s S.done(); System.exit(0); }\n}\n%s" % (
        "static Inst inst;\n" if inst else "", "".join(fs), "inst = new Inst(41);" if inst else "", "".join("f%d();\n" % i for i in range(0, len(J), 20)), "".join(mk))
    return {"org/fg/Main.java": main, "org/fg/S.java": jvals.S_JAVA}


def absorb(r, name, p):
    stats = False
    nv = 0
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "VIOL":
            nv += 1
            r.violation("%s/%s" % (name.split("#")[0], f[1]), f[2], {"program": name, "history": f[3]})
        elif f[0] == "STATS":
            stats = True
            n = dict(x.split("=") for x in f[2:])
            r.transitions += int(n["steps"])
            r.traces += int(n["seq"])
        elif f[0] == "STATE":
            r.state((name, f[1]))
        elif f[0] == "SAMPLE":
            r.sample(f[1])
    if not stats:
        r.violation("%s/died" % name, "the program did not finish (rc=%s):\n%s\n%s" % (p.returncode, "\n".join(x for x in p.stderr.splitlines() if x.strip())[:1800], p.stdout[-600:]), {"program": name})


def groups(ts, size):
    return [ts[i:i + size] for i in range(0, len(ts), size)]


CFGS = [("plain", {}), ("null", {"null_pkg": "fg.anno"}), ("fence8", {"fence": "8"}), ("fence", {"fence": "std", "null_pkg": "fg.anno"})]


def run_group(r, name, types, cfg, inst=True, ctors=True, size=0):
    """bisects on problems of a group; returns list of (types, kind, problem)"""
    d = os.path.join(r.work, re.sub(r"\W", "_", name))
    desc, rust, java = program(types, inst, ctors)
    b = jkit.build(r, d, desc, rust, java, cfg)
    if b.problem:
        return d, b, None
    p = run(b.cmd("org.fg.Main"), timeout=600)
    return d, b, p



def pairs_program(T, names, two=True):
    """all ordered pairs of argument types, and long argument lists"""
    D, R, J, mk = [], [], [], []
    ts = [T[n] for n in names]
    for t in ts:
        mk.append("class M_%s { static final String[] x = {%s};\nstatic %s mk(int k) { switch (k %% %d) { %s default: throw new Error(); } } static String s(int k) { return x[k %% %d]; } }\n" % (
            t.name, ", ".join('"%s"' % v.ser for v in t.v), t.jin, len(t.v), " ".join("case %d: return %s;" % (k, v.j) for k, v in enumerate(t.v)), len(t.v)))

    def add(name, args):
        D.append("fn w::%s(%s) -> String;" % (name, ", ".join("x%d: %s" % (i, t.rs) for i, t in enumerate(args))))
        R.append("pub fn %s(%s) -> String { [%s].join(\"|\") }" % (name, ", ".join("x%d: %s" % (i, t.rs) for i, t in enumerate(args)), ", ".join("x%d.ser()" % i for i in range(len(args)))))
        J.append('for (int k = 1; k < 4; ++k) S.chk("arguments/%s", k, W.%s(%s), %s);' % (
            name, name, ", ".join("M_%s.mk(k + %d)" % (t.name, i) for i, t in enumerate(args)), ' + "|" + '.join("M_%s.s(k + %d)" % (t.name, i) for i, t in enumerate(args))))
    if two:
        for a in ts:
            for b in ts:
                add("p_%s_%s" % (a.name, b.name), [a, b])
    else:
        for n in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 26):
            for off in range(0, len(ts), 3):
                xs, objs = [], 0
                for i in range(n):
                    t = ts[(off + 5 * i) % len(ts)]
                    objs += t.jin[0] in "OCSAB" and t.jin in ("Obj", "Cp", "Sh", "Ar", "Bx", "Cp []")
                    # the default configuration protects at most eight object arguments
                    xs.append(t if objs <= 6 or t.jin not in ("Obj", "Cp", "Sh", "Ar", "Bx", "Cp []") else ts[(i * 7) % 5])
                add("l_%d_%d" % (n, off), xs)
    desc = jvals.DESC + "foreign_class!(class W {\n%s\n});\n" % "\n".join(D)
    rust = jvals.RUST + "#[allow(non_camel_case_types, non_snake_case)] pub mod w { use super::*;\n%s\n}\n" % "\n".join(R)
    return desc, rust, main_java(mk, J, False)


# overloads: each list has distinct types on the JNI level
OVER = [["i8", "i16", "i32", "i64", "f32", "f64", "bool", "string", "Oi8", "Oi16", "Oi32", "Oi64", "Of32", "Of64", "Si8", "Si16", "Si32", "Si64", "Sf32", "Sf64"],
        ["en", "obj", "str", "u8"], ["en2", "cpy", "Ostr", "Sf64"], ["u16", "u32", "f32"], ["sho", "en", "bool", "path"], ["Oobj", "f64", "Oi32"], ["u64", "Oen", "Si32"]]


def overload_types(T):
    T = dict(T)
    T["en2"] = Ty("en2", "En2", "En2", [V("En2::" + x, "En2." + x, "g%d" % i) for i, x in enumerate("XY")])
    T["objs"] = T["sho"]
    return T


def overload_program(T, names, inst):
    """one Java name for all the types (static, instance, constructors), each call must reach its own function"""
    T = overload_types(T)
    D, R, J, mk, CT = [], [], [], [], []
    for n in names:
        t = T[n]
        mk.append("class M_%s { static final String[] x = {%s};\nstatic %s mk(int k) { switch (k) { %s default: throw new Error(); } } }\n" % (
            n, ", ".join('"%s"' % v.ser for v in t.v), t.jin, " ".join("case %d: return %s;" % (k, v.j) for k, v in enumerate(t.v))))
        loop = "for (int k = 0; k < %d; ++k) " % len(t.v)
        if inst:
            D.append("fn Q::q_%s(&self, x: %s) -> String; alias ov;" % (n, t.rs))
            R.append('pub fn q_%s(&self, x: %s) -> String { format!("%s:{}:{}", self.0, x.ser()) }' % (n, t.rs, n))
            CT.append("constructor Q::c_%s(x: %s) -> Q;" % (n, t.rs))
            R.append('pub fn c_%s(x: %s) -> Q { Q(format!("%s/{}", x.ser())) }' % (n, t.rs, n))
            J.append(loop + '{ Q q = new Q(M_%s.mk(k)); S.chk("overloaded_method/%s", k, q.ov(M_%s.mk(k)), "%s:%s/" + M_%s.x[k] + ":" + M_%s.x[k]); }' % (n, n, n, n, n, n, n))
        else:
            D.append("fn w::o_%s(x: %s) -> String; alias ov;" % (n, t.rs))
            R.append('pub fn o_%s(x: %s) -> String { format!("%s:{}", x.ser()) }' % (n, t.rs, n))
            J.append(loop + 'S.chk("overloaded/%s", k, W.ov(M_%s.mk(k)), "%s:" + M_%s.x[k]);' % (n, n, n, n))
            D.append("fn w::o2_%s(x: %s, y: &str) -> String; alias ov;" % (n, t.rs))
            R.append('pub fn o2_%s(x: %s, y: &str) -> String { format!("2%s:{}:{}", x.ser(), y) }' % (n, t.rs, n))
            J.append(loop + 'S.chk("overloaded2/%s", k, W.ov(M_%s.mk(k), "z" + k), "2%s:" + M_%s.x[k] + ":z" + k);' % (n, n, n, n))
    desc = jvals.DESC + "foreign_enum!(enum En2 { X = En2::X, Y = En2::Y, });\n"
    rust = jvals.RUST + '#[derive(Clone, Copy)] pub enum En2 { X, Y } impl Ser for En2 { fn ser(&self) -> String { format!("g{}", *self as i32) } }\n'
    if inst:
        desc += "foreign_class!(class Q { self_type Q;\n%s\n%s });\n" % ("\n".join(CT), "\n".join(D))
        rust += "pub struct Q(String); #[allow(non_snake_case)] impl Q { %s }\n" % "\n".join(R)
    else:
        desc += "foreign_class!(class W {\n%s\n});\n" % "\n".join(D)
        rust += "#[allow(non_snake_case)] pub mod w { use super::*;\n%s\n}\n" % "\n".join(R)
    return desc, rust, main_java(mk, J, False)


# values that have no counterpart on the other side: (id, direction, Rust type, Java call or Rust value, why)
PROBES = []
for rs_, jt, bad in (("u8", "short", (-1, 256, 32767, -32768)), ("u16", "int", (-1, 65536, 2147483647, -2147483648)), ("u32", "long", (-1, 1 << 32, (1 << 63) - 1, -(1 << 63))),
                     ("u64", "long", (-1, -(1 << 63))), ("usize", "long", (-1, -(1 << 63)))):
    for x in bad:
        PROBES.append(("arg/%s/%d" % (rs_, x), "in", rs_, "(%s)%s" % (jt, "Long.MIN_VALUE" if x == -(1 << 63) else "%dL" % x)))
for rs_, bad in (("u64", ("1u64 << 63", "u64::MAX")), ("usize", ("1usize << 63", "usize::MAX"))):
    for x in bad:
        PROBES.append(("ret/%s/%s" % (rs_, x), "out", rs_, x))
        PROBES.append(("result/%s/%s" % (rs_, x), "out", "Result<%s, String>" % rs_, "Ok(%s)" % x))
for nm, x in (("before_epoch", "std::time::UNIX_EPOCH - std::time::Duration::from_millis(1)"), ("beyond_long", "std::time::UNIX_EPOCH + std::time::Duration::from_secs(i64::MAX as u64 / 1000 + 1)"),
              ("wraps_to_zero", "std::time::UNIX_EPOCH + std::time::Duration::from_secs(1u64 << 61)"), ("far", "std::time::UNIX_EPOCH + std::time::Duration::from_secs(18446744073709552)")):
    PROBES.append(("date/" + nm, "out", "SystemTime", x))
for nm, x in (("high", "\\ud83d"), ("low", "a\\ude00b"), ("swapped", "\\ude00\\ud83d"), ("high_at_end", "ab\\ud800")):
    for ty in ("&str", "String", "Option<&str>", "&Path"):
        PROBES.append(("lone_surrogate/%s/%s" % (nm, ty), "in", ty, '"%s"' % x))
for ty in ("Obj", "&Obj", "&mut Obj", "Cp", "Rc<RefCell<Sh>>", "En", "&[i32]", "&[f64]", "Vec<Cp>"):
    PROBES.append(("null/" + ty, "in", ty, "null"))
PROBES.append(("null_element/Vec<Cp>", "in", "Vec<Cp>", "new Cp[]{new Cp(1), null}"))


def probes(r, release):
    D, R, J = [], [], []
    for i, (id, d, ty, x) in enumerate(PROBES):
        if d == "in":
            D.append("fn w::f%d(x: %s) -> String;" % (i, ty))
            R.append("pub fn f%d(x: %s) -> String { x.ser() }" % (i, ty))
            J.append('case %d: got = "argument arrived as " + W.f%d(%s); break;' % (i, i, x))
        else:
            D.append("fn w::f%d() -> %s;" % (i, ty))
            R.append("pub fn f%d() -> %s { %s }" % (i, ty, x))
            J.append('case %d: got = "result arrived as " + S.ser(W.f%d()); break;' % (i, i))
    desc = jvals.DESC + "foreign_class!(class W {\n%s\n});\n" % "\n".join(D)
    rust = jvals.RUST + "pub mod w { use super::*;\n%s\n}\n" % "\n".join(R)
    main = "package org.fg;\npublic class Main { public static void main(String[] a) throws Throwable { System.load(System.getProperty(\"fg.lib\")); String got = \"?\"; try { switch (Integer.parseInt(a[0])) {\n%s\n} } catch (Throwable e) { System.out.println(\"REFUSED \" + e); System.out.flush(); Runtime.getRuntime().halt(3); } System.out.println(\"SILENT \" + got); System.out.flush(); Runtime.getRuntime().halt(0); } }\n" % "\n".join(J)
    d = os.path.join(r.work, "probes%d" % release)
    b = jkit.build(r, d, desc, rust, {"org/fg/Main.java": main, "org/fg/S.java": jvals.S_JAVA}, extra=["-C", "debug-assertions=no"] if release else [])
    tag = "probe_release" if release else "probe"
    if b.problem:
        r.violation(tag + "/build", b.problem)
        return
    for (i, (id, d, ty, x)), p in zip(enumerate(PROBES), pmap(lambda i: run(b.cmd("org.fg.Main", i), timeout=120), range(len(PROBES)))):
        r.transitions += 1
        r.traces += 1
        r.state((tag, id))
        m = re.search("^SILENT (.*)", p.stdout, re.M)
        if m:
            r.violation("%s/%s" % (tag, id), "%s (%s %s) is not refused: %s" % (id, ty, x, m.group(1)), {"probe": [id, d, ty, x], "release": release})
        elif p.returncode == 0:
            raise CheckError("probe %s: no verdict: %s %s" % (id, p.stdout, p.stderr[:300]))
        elif p.returncode in (-11, 139) or "SIGSEGV" in p.stdout or "SIGSEGV" in p.stderr:
            r.violation("%s/%s" % (tag, id), "%s (%s %s) is not refused but crashes the process with a memory fault" % (id, ty, x), {"probe": [id, d, ty, x], "release": release})


def check(r):
    T = jvals.types()
    skip = load_skip()
    use = [t for n, t in T.items() if n not in skip]
    jobs = []
    size = 24
    cfgs = CFGS
    for ci, (cn, cfg) in enumerate(cfgs):
        for gi, g in enumerate(groups(use, size)):
            if ci and not r.thorough and (gi + ci) % 2:
                continue
            jobs.append(("%s#%d" % (cn, gi), cfg, g))

    def one(job):
        name, cfg, g = job
        out = []
        d, b, p = run_group(r, name, g, cfg)
        if b.problem and len(g) > 1:
            # which of them?
            for t in g:
                _, b1, p1 = run_group(r, name + "_" + t.name, [t], cfg)
                if b1.problem:
                    out.append((name, t, b1, None))
                else:
                    out.append((name + "_" + t.name, t, b1, p1))
            if not any(x[2].problem for x in out):
                out.append((name, None, b, None))
            return out
        shutil.rmtree(d, ignore_errors=True)
        return [(name, g[0] if len(g) == 1 else None, b, p)]
    import shutil
    for job, res in zip(jobs, pmap(one, jobs, workers=6)):
        for t in job[2]:
            for v in t.outv if t.out else t.v:
                r.state((job[0].split("#")[0], t.name, v.rs))
        for name, t, b, p in res:
            if b.problem:
                r.violation("%s/%s/%s" % (name.split("#")[0], t.name if t else "group", b.kind), "%s: %s" % (t.rs if t else "the group", b.problem))
            else:
                absorb(r, name, p)
    # argument lists and overloads
    PAIR = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool", "str", "string", "path", "en", "obj", "objr", "cpy", "sho", "aro", "bxo", "Oi32", "Oi64", "Of64", "Ostr", "Oen", "Oobj", "Oobjr", "Si32", "Sf64", "Vcpy"]
    progs = [("pairs", lambda: pairs_program(T, PAIR)), ("long", lambda: pairs_program(T, PAIR, False)),
             *[("overloads%d" % k, lambda o=o: overload_program(T, o, False)) for k, o in enumerate(OVER)], *[("overloaded_methods%d" % k, lambda o=o: overload_program(T, o, True)) for k, o in enumerate(OVER)]]

    def prog(x):
        name, f = x
        desc, rust, java = f()
        d = os.path.join(r.work, name)
        b = jkit.build(r, d, desc, rust, java)
        return name, b, None if b.problem else run(b.cmd("org.fg.Main"), timeout=600)
    for name, b, p in pmap(prog, progs, workers=6):
        if b.problem:
            r.violation("%s/%s" % (name, b.kind), b.problem)
        else:
            absorb(r, name, p)
    probes(r, False)
    probes(r, True)
    r.sample({"type": use[3].name, "values": [v.ser for v in use[3].v]})
    r.extra["types"] = len(use)
    r.extra["configurations"] = [c[0] for c in cfgs]


def load_skip():
    return json.load(open(os.path.join(VERIF, "mc/specs/p08_skip.json")))


if __name__ == "__main__":
    # survey: which types of the matrix does the tree accept?
    os.environ.setdefault("VERIF_TIER", "quick")
    r = Report("P08survey")
    build_driver()
    T = jvals.types()
    skip = {}

    def one(n):
        t = T[n]
        res = {}
        _, b, p = run_group(r, "sv_" + n, [t], {})
        if b.problem:
            res[n] = (b.kind, b.problem[:300])
        elif "VIOL" in p.stdout or "STATS" not in p.stdout:
            res[n] = ("run", (p.stdout + p.stderr)[:600])
        return res
    for x in pmap(one, list(T)):
        skip.update(x)
    for k, v in skip.items():
        if "NulError" not in v[1]:
            print(k, T[k].rs, v[0], "\n    ", v[1].split("error")[-1][:200] if v[0] != "run" else v[1])
    print(len(T), len(skip))
