"""P07: Java ownership.  (1) every history of wrapper operations, in lock step with an ownership model; (2) every use of an
emptied object; (3) every interleaving of threads deleting or finalizing the same objects; (4) the collector at every point
of every generated method."""
import json, os
from common import *
import jkit

LEVEL = "model_checking"
ASSUMPTIONS = ["two references to Java objects at a time, at most MAXREF holders of Rust objects", "the collector is represented by a call of finalize() at the moment the last reference goes, except where the real collector runs (part 4)",
               "threads interleave at accesses of the native pointer, at locks and at native calls of the generated classes"]

FL = {
    "Pl": dict(st="PlT"),
    "Cl": dict(derive="#[derive(Clone)]", st="ClT", clone=1),
    "Cc": dict(derive="#[derive(Copy)]", st="CcT", clone=1, copy=1),
    "Sh": dict(st="Rc<RefCell<ShT>>", wrap="Rc::new(RefCell::new(%s))", get="x.borrow()"),
    "Ss": dict(derive="#[derive(SmartPtrCopy)]", st="Rc<RefCell<SsT>>", wrap="Rc::new(RefCell::new(%s))", get="x.borrow()", shared=1),
    "Am": dict(st="Arc<Mutex<AmT>>", wrap="Arc::new(Mutex::new(%s))", get="x.lock().unwrap()"),
    "As": dict(derive="#[derive(SmartPtrCopy)]", st="Arc<Mutex<AsT>>", wrap="Arc::new(Mutex::new(%s))", get="x.lock().unwrap()", shared=1),
    "Bx": dict(st="Box<BxT>", wrap="Box::new(%s)"),
    "Bd": dict(st="Box<Box<dyn BdT>>", wrap="Box::new(Box::new(%s))", dyn=1),
    "Rs": dict(derive="#[derive(SmartPtrCopy)]", st="Rc<RsT>", wrap="Rc::new(%s)", shared=1),
}
SIG = [
    ("take", "take", "(x: {V}) -> i32", "{g}"), ("take", "ident", "(x: {V}) -> {V}", "x"), ("put", "put", "(x: {V})", "VAULT.with(|v| v.borrow_mut().push(x))"),
    ("take", "res", "(x: {V}, ok: bool) -> Result<{V}, String>", 'if ok {{ Ok(x) }} else {{ Err(format!("err {{}}", {g})) }}'),
    ("take", "two", "(x: {V}, y: {V}) -> {V}", "let _ = {g}; y"), ("take", "refval", "(x: &{T}, y: {V}) -> i32", "x.get() * 1000 + {{ let x = &y; {g} }}"),
    ("take", "refdrop", "(x: &{T}, y: {V}) -> i32", "drop(y); x.get()"),
    ("opt", "opt", "(x: Option<{V}>) -> Option<{V}>", "x"), ("grab", "grab", "() -> Option<{V}>", "VAULT.with(|v| v.borrow_mut().pop())"),
    ("make", "make", "(v: i32) -> {V}", "{new}(v)"), ("make", "makeres", "(v: i32, ok: bool) -> Result<{V}, &str>", 'if ok {{ Ok({new}(v)) }} else {{ Err("nores") }}'),
    ("rf", "rf", "(x: &{T}) -> i32", "x.get()"), ("rm", "rm", "(x: &mut {T}, v: i32)", "x.set(v)"), ("of", "of", "(x: Option<&{T}>) -> i32", "match x {{ Some(x) => x.get(), None => -1 }}"),
    ("arr", "arr", "(x: Vec<{V}>) -> i32", "x.iter().fold(0, |s, x| s * 1000 + {g})"), ("arr", "vid", "(x: Vec<{V}>) -> Vec<{V}>", "x"),
    ("vout", "vout", "() -> Vec<{V}>", "VAULT.with(|v| std::mem::take(&mut *v.borrow_mut()))"),
    ("rsp", "rsp", "(x: &{V}) -> i32", "{g}"), ("rsp", "share", "(x: &{V}) -> {V}", "x.clone()"),
]
OPC = dict(take=[6, 7, 10, 11, 12, 19, 20, 24, 25, 26, 28, 31], opt=[8, 9], grab=[13], rm=[16], of=[17, 18], arr=[21, 23], vout=[22], clone=[27], rsp=[32, 30])
BASE = [0, 1, 2, 3, 4, 5, 14, 33, 15, 29, 34, 35]


def feats(f):
    d = FL[f]
    F = {"take", "put", "opt", "grab", "make", "rf", "rm", "vout"}
    if d["st"] == f + "T":
        F.add("of")
    if d.get("clone"):
        F |= {"arr", "clone"}
    if d.get("shared") and f != "Rs":
        F.add("rsp")
    if f == "Rs":
        F -= {"rm"}
    for x in SKIP.get(f, []):
        F.discard(x)
    return F


SKIP = {}


def texts(f):
    d, F = FL[f], feats(f)
    t, V = f + "T", d["st"]
    new = f.lower() + "_new"
    T = "dyn BdT" if d.get("dyn") else t
    g = d.get("get", "x") + ".get()"
    sub = lambda s: s.format(V=V, T=T, g=g, new=new) if "{{" in s or "{g}" in s or "{new}" in s or "{V}" in s or "{T}" in s else s
    desc = "foreign_class!(class Trk { fn trk::born() -> u32; fn trk::live(base: u32) -> i64; fn trk::error() -> String; fn trk::forget(); fn trk::blocks() -> i64; });\n"
    desc += "foreign_class!(%s class %s { self_type %s; constructor %s(v: i32) -> %s;\n" % (d.get("derive", ""), f, T, new, V)
    desc += " fn %s::get(&self) -> i32; fn %s::id(&self) -> u32; fn %s::set(&mut self, v: i32); fn %s::fail(&self) -> Result<i32, String>; fn %s_spawn(&self) -> %s; alias spawn;\n" % (t, t, t, t, f.lower(), V)
    desc += " fn %s_eat(&self, y: %s) -> i32; alias eat; fn %s_chew(&self, y: %s) -> i32; alias chew; fn %s_may(&self, y: %s, ok: bool) -> Result<i32, String>; alias may;\n" % (f.lower(), V, f.lower(), V, f.lower(), V)
    if d.get("clone"):
        desc += " fn %s::clone(&self) -> %s;\n" % (t, t)
    desc += "});\nforeign_class!(class Ops { fn ops::clear();\n"
    rs = "use std::{rc::Rc, cell::{Ref, RefMut, RefCell}, sync::{Arc, Mutex, MutexGuard}};\nmod trk0 { include!(%s); }\nuse trk0::track;\nmod al { include!(%s); }\n" % (
        json.dumps(os.path.join(VERIF, "mc/rs/track.rs")), json.dumps(os.path.join(VERIF, "mc/rs/own_alloc.rs")))
    rs += r'''
pub mod trk {
    use super::*;
    pub fn born() -> u32 { track::reg().alive.len() as u32 }
    pub fn live(base: u32) -> i64 { track::reg().alive[base as usize..].iter().enumerate().fold(0i64, |m, (i, a)| if *a { m | (1 << (i % 64)) } else { m }) }
    pub fn error() -> String {
        if let Some(e) = track::reg().errors.first() { return e.clone(); }
        if al::own_alloc::BAD.load(std::sync::atomic::Ordering::SeqCst) != 0 { return "memory freed twice or with another size".into(); }
        String::new()
    }
    pub fn forget() { let mut r = track::reg(); r.errors.clear(); if r.alive.capacity() < 1 << 22 { r.alive.reserve(1 << 22); r.errors.reserve(64); } al::own_alloc::BAD.store(0, std::sync::atomic::Ordering::SeqCst); }
    pub fn blocks() -> i64 { al::own_alloc::LIVE.load(std::sync::atomic::Ordering::SeqCst) }
}
'''
    body = '{p}fn get(&self) -> i32 { self.core.get() } {p}fn id(&self) -> u32 { self.core.touch("id"); self.core.id } {p}fn set(&mut self, v: i32) { self.core.set(v) } {p}fn fail(&self) -> Result<i32, String> { Err(format!("fail {}", self.core.get())) }'
    if f == "Rs":
        desc = desc.replace("(&mut self, v: i32)", "(&self, v: i32)")
        body = body.replace("&mut self", "&self").replace("self.core.set(v)", "self.core.set_cell(v)")
    s = "BdS" if d.get("dyn") else t
    rs += "%spub struct %s { core: track::Core }\n" % ("#[derive(Clone)] " if d.get("clone") else "", s)
    if f == "Rs":
        rs = rs.replace("pub struct RsT { core: track::Core }", "pub struct RsT { core: CellCore } pub struct CellCore(std::cell::RefCell<track::Core>); impl CellCore { fn get(&self) -> i32 { self.0.borrow().get() } fn touch(&self, s: &str) { self.0.borrow().touch(s) } fn set_cell(&self, v: i32) { self.0.borrow_mut().set(v) } }")
        body = body.replace("self.core.id }", "self.core.0.borrow().id }")
    if d.get("dyn"):
        rs += "pub trait BdT { fn get(&self) -> i32; fn id(&self) -> u32; fn set(&mut self, v: i32); fn fail(&self) -> Result<i32, String>; }\nimpl BdT for BdS { %s }\n" % body.replace("{p}", "")
    else:
        rs += "impl %s { %s }\n" % (t, body.replace("{p}", "pub "))
    mk = "%s { core: %s }" % (s, "CellCore(RefCell::new(track::Core::new(v)))" if f == "Rs" else "track::Core::new(v)")
    rs += "pub fn %s(v: i32) -> %s { %s }\n" % (new, V, d.get("wrap", "%s") % mk)
    rs += "pub fn %s_spawn(x: &%s) -> %s { %s(x.get()) }\n" % (f.lower(), T, V, new)
    rs += "pub fn %s_eat(s: &%s, x: %s) -> i32 { s.get() * 1000 + %s }\n" % (f.lower(), T, V, g)
    rs += "pub fn %s_chew(s: &%s, x: %s) -> i32 { drop(x); s.get() }\n" % (f.lower(), T, V)
    rs += "pub fn %s_may(s: &%s, x: %s, ok: bool) -> Result<i32, String> { let w = s.get() * 1000 + %s; if ok { Ok(w) } else { Err(format!(\"may {}\", w)) } }\n" % (f.lower(), T, V, g)
    rs += "thread_local!(static VAULT: RefCell<Vec<%s>> = RefCell::new(Vec::new()));\n" % V
    rs += "pub mod ops { use super::*; pub fn clear() { VAULT.with(|v| *v.borrow_mut() = Vec::new()) }\n"
    for ft, n, sg, b in SIG:
        if ft in F:
            desc += " fn ops::%s%s;\n" % (n, sub(sg))
            rs += " pub fn %s%s { %s }\n" % (n, sub(sg).replace("Result<%s, &str>" % V, "Result<%s, &'static str>" % V), sub(b))
    desc += "});\n"
    rs += "}\n"
    # holders
    desc += "foreign_class!(class K%s { self_type K%s; constructor K%s::new(x: %s) -> K%s; fn K%s::get(&self) -> i32; });\n" % (f, f, f, V, f, f)
    desc += "foreign_class!(class G%s { self_type G%s; constructor G%s::new(x: %s, ok: bool) -> Result<G%s, String>; fn G%s::get(&self) -> i32; });\n" % (f, f, f, V, f, f)
    rs += "pub struct K%s(%s); impl K%s { pub fn new(x: %s) -> K%s { K%s(x) } pub fn get(&self) -> i32 { let x = &self.0; %s } }\n" % (f, V, f, V, f, f, g)
    rs += "pub struct G%s(%s); impl G%s { pub fn new(x: %s, ok: bool) -> Result<G%s, String> { if ok { Ok(G%s(x)) } else { Err(format!(\"no {}\", %s)) } } pub fn get(&self) -> i32 { let x = &self.0; %s } }\n" % (f, V, f, V, f, f, g, g)
    return desc, rs, F


PROBE_USES = {
    "call": 'x.get()', "call_mut": "x.set(1)", "failing_call": "x.fail()", "call_returning_new": "x.spawn()", "ref": "Ops.rf(x)", "mut_ref": ("rm", "Ops.rm(x, 3)"), "by_value": ("take", "Ops.take(x)"), "through": ("take", "Ops.ident(x)"),
    "two_first": ("take", "Ops.two(x, y)"), "two_second": ("take", "Ops.two(y, x)"), "ref_of_pair": ("take", "Ops.refval(x, y)"), "value_of_pair": ("take", "Ops.refval(y, x)"), "put": ("put", "Ops.put(x)"),
    "constructor": ("take", "new K$F(x)"), "fallible_constructor": ("take", "new G$F(x, true)"), "result": ("take", "Ops.res(x, true)"), "option": ("opt", "Ops.opt(x)"), "option_ref": ("of", "Ops.of(x)"),
    "array": ("arr", "Ops.arr(new $F[]{y, x})"), "clone": ("clone", "x.clone()"), "storage_ref": ("rsp", "Ops.rsp(x)"), "share": ("rsp", "Ops.share(x)"), "eaten": ("take", "y.eat(x)"), "eater": ("take", "x.eat(y)"),
}
PROBE_WAYS = {"deleted": "x.delete();", "finalized": "x.finalize();", "by_value": "Ops.take(x);", "by_option": "Ops.opt(x);", "into_constructor": "keep = new K$F(x);", "failed_constructor": "try { new G$F(x, false); } catch (Exception e) { }",
              "half_constructed": "x = null;"}
# one call that mentions an object twice
PROBE_TWICE = {"value_and_value": "Ops.two(x, x)", "ref_and_value": "Ops.refdrop(x, x)", "receiver_and_value": "x.chew(x)"}


def probe_java(f):
    d, F = FL[f], feats(f)
    uses = {k: u for k, u in PROBE_USES.items() if not isinstance(u, tuple) or u[0] in F}
    uses = {k: (u[1] if isinstance(u, tuple) else u).replace("$F", f) for k, u in uses.items()}
    void = {"call_mut", "mut_ref", "put"}
    J = "package org.fg;\npublic final class OwnP%s {\nstatic Object keep; static String got = \"?\";\n" % f
    J += "static void run(String use, String way) throws Throwable { %s x = new %s(7), y = new %s(8), x0 = x;\n" % (f, f, f)
    J += "switch (way) {\n%s case \"none\": break; default: throw new Error(way); }\n" % "".join('case "%s": %s break;\n' % (w, c.replace("$F", f)) for w, c in PROBE_WAYS.items() if w != "half_constructed")
    J += "System.out.println(\"READY\"); System.out.flush();\ntry { switch (use) {\n"
    for k, u in uses.items():
        J += 'case "%s": %s break;\n' % (k, u + ";" if k in void else 'got = "" + %s;' % u)
    for k, u in PROBE_TWICE.items():
        J += 'case "%s": got = "" + %s; break;\n' % (k, u)
    J += 'default: throw new Error(use); } } catch (Error e) { throw e; } catch (Throwable e) { System.out.println("EXC " + e); System.out.println("ERR " + Trk.error()); System.out.flush(); Runtime.getRuntime().halt(4); }\n'
    J += 'System.out.println("SILENT " + got); System.out.println("ERR " + Trk.error()); System.out.flush(); Runtime.getRuntime().halt(0); }\n}\n'
    return J, list(uses)


def java_of(f, maxref):
    d, F = FL[f], feats(f)
    s = read(os.path.join(VERIF, "mc/java/Own.java"))
    out, on = [], True
    for l in s.splitlines():
        m = re.match(r"\s*//OP (\w+)", l)
        if m:
            on = m.group(1) in F
        elif re.match(r"\s*//END", l):
            on = True
        elif on:
            out.append(l)
    ops = BASE + [x for k in F for x in OPC.get(k, [])]
    if not "put" in F:
        ops.remove(12)
    if "rm" not in F and False:
        pass
    s = "\n".join(out)
    for k, v in (("$MOVE", "false" if d.get("copy") or d.get("shared") else "true"), ("$COPY", "true" if d.get("copy") else "false"), ("$SHARED", "true" if d.get("shared") else "false"),
                 ("$MAXREF", str(maxref)), ("$OPS", ", ".join(map(str, sorted(ops)))), ("$F", f)):
        s = s.replace(k, v)
    return s


def absorb(r, name, p):
    ok = False
    for l in p.stdout.splitlines():
        x = l.split("\t")
        if x[0] == "VIOL":
            r.violation("%s/%s" % (name, x[1]), "%s: after %s: %s" % (name, x[3], x[2]), {"flavour": name, "history": x[3]})
        elif x[0] == "STATE":
            r.state((name, x[1]))
        elif x[0] == "STATS":
            ok = True
            n = dict(y.split("=") for y in x[2:])
            r.transitions += int(n["steps"])
            r.traces += int(n["seq"])
        elif x[0] == "SAMPLE":
            r.sample(x[1])
    if not ok:
        r.violation("%s/died" % name, "the program did not finish (rc=%s): %s\n%s" % (p.returncode, p.stdout[-600:], "\n".join(p.stderr.splitlines()[:25])[:2000]), {"flavour": name})


def build(r, f):
    desc, rs, F = texts(f)
    d = os.path.join(r.work, f)
    pj, uses = probe_java(f)
    # a trait object is spelled without `dyn` in the generated code
    b = jkit.build(r, d, desc, rs, edition="2018" if FL[f].get("dyn") else "2021", java={"org/fg/Own%s.java" % f: java_of(f, 4 if r.thorough else 3), "org/fg/OwnP%s.java" % f: pj})
    b.uses = uses
    return f, b, desc


def histories(r, built):
    depth = 4 if r.thorough else 3
    shards = 8 if r.thorough else 1
    jobs = [(f, b, k) for f, b, _ in built for k in range(shards)]
    for (f, b, k), p in zip(jobs, pmap(lambda j: run(j[1].cmd("org.fg.Own" + j[0], depth, j[2], shards), timeout=3000), jobs)):
        absorb(r, f, p)
    r.extra["depth"] = depth


def emptied(r, built):
    jobs = []
    for f, b, _ in built:
        for u in b.uses:
            for w in PROBE_WAYS:
                if w == "half_constructed":
                    continue
                if FL[f].get("copy") or FL[f].get("shared"):
                    if w in ("by_value", "into_constructor", "failed_constructor"):
                        continue
                if not r.thorough and w not in ("deleted", "by_value", "by_option"):
                    continue
                jobs.append((f, b, u, w))
        for u in PROBE_TWICE:
            jobs.append((f, b, u, "none"))
    def go(j):
        f, b, u, w = j
        return run(b.cmd("org.fg.Own" + f, "probe", u, w), timeout=120)
    for (f, b, u, w), p in zip(jobs, pmap(go, jobs)):
        r.transitions += 1
        r.traces += 1
        r.state(("emptied", f, u, w))
        err = re.search("^ERR (.+)", p.stdout, re.M)
        sil = re.search("^SILENT (.*)", p.stdout, re.M)
        exc = re.search("^EXC (.*)", p.stdout, re.M)
        if "READY" not in p.stdout:
            r.violation("emptied/%s/%s/setup" % (f, w), "emptying a %s (%s) failed: rc=%s %s" % (f, w, p.returncode, p.stderr[:400]))
            continue
        movesem = not (FL[f].get("copy") or FL[f].get("shared"))
        if err:
            r.violation("emptied/%s/%s" % (u, w) if w != "none" else "twice/" + u, "%s, object of class %s (%s): %s" % (u, f, w, err.group(1)), {"flavour": f, "use": u, "way": w})
        elif sil and (w != "none" or movesem and u != "receiver_and_value"):
            r.violation(("emptied/%s" % u) if w != "none" else "twice/" + u, "%s with an emptied object of class %s (%s) goes through silently: %s" % (u, f, w, sil.group(1)), {"flavour": f, "use": u, "way": w})
        elif not sil and not exc and "panicked" not in p.stderr or "SIGSEGV" in p.stdout:
            r.violation("emptied/%s/%s/fault" % (u, w), "%s with an emptied object of class %s (%s): neither refused nor stopped by a check: rc=%s %s %s" % (u, f, w, p.returncode, p.stdout[:400], p.stderr[:400]), {"flavour": f, "use": u, "way": w})


# ---- (3) and (4): instrumented generated classes
EXPORT = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"]
GENERATED = r"org/fg/(?!Own|Race|Gc|Main).*"


def instr_tool(r):
    d = os.path.join(r.work, "instr")
    os.makedirs(d, exist_ok=True)
    p = run([jkit.JAVAC, "-nowarn", "-d", d] + EXPORT + [os.path.join(VERIF, "mc/java/mcs", x) for x in ("Instr.java", "Sched.java")])
    if p.returncode:
        raise CheckError("instrumentation tool: " + p.stdout + p.stderr)
    return d


def instrument(tool, b):
    out = b.d + "/cls2"
    p = run([jkit.JAVA, "-XX:TieredStopAtLevel=1"] + EXPORT + ["-cp", tool, "mcs.Instr", b.cls, out, GENERATED])
    if p.returncode or "points" not in p.stdout:
        raise CheckError("instrumentation: " + p.stdout + p.stderr)
    b.points = int(p.stdout.split()[-1])
    b.cls0, b.cls = b.cls, out + ":" + tool
    return b


def build_race(r, tool, f):
    desc, rs, F = texts(f)
    d = os.path.join(r.work, "race-" + f)
    j = read(os.path.join(VERIF, "mc/java/Race.java")).replace("$SECOND", "Ops.share(o[0])" if "rsp" in F else "new $F(2)").replace("$F", f)
    b = jkit.build(r, d, desc, rs, {"org/fg/Race%s.java" % f: j}, edition="2018" if FL[f].get("dyn") else "2021", jcp=[tool])
    return b if b.problem else instrument(tool, b)


def races(r, tool):
    fs = list(FL)

    def go(f):
        b = build_race(r, tool, f)
        return f, b, None if b.problem else run(b.cmd("org.fg.Race" + f, *([4, 3, 8, 8] if r.thorough else [3, 3, 6, 4])), timeout=6000 if r.thorough else 400)
    for f, b, p in pmap(go, fs):
        if b.problem:
            r.violation("threads/%s/%s" % (f, b.kind), b.problem)
        else:
            absorb(r, "threads/" + f, p)


ARGS = {  # letter: Rust type, Java expression for value n, Rust expression of its value
    "i": ("i32", "%d", "{x}"), "s": ("&str", '"%d"', "{x}.parse::<i32>().unwrap()"),
    "r": ("&PlT", "new Pl(%d)", "{x}.get()"), "m": ("&mut PlT", "new Pl(%d)", "{{ let v = {x}.get(); {x}.set(v + 1); {x}.get() - 1 }}"), "o": ("Option<&PlT>", "new Pl(%d)", "{x}.unwrap().get()"),
    "v": ("PlT", "new Pl(%d)", "{x}.get()"), "q": ("Option<PlT>", "new Pl(%d)", "{x}.unwrap().get()"),
    "g": ("&SsT", "new Ss(%d)", "{x}.get()"), "h": ("Rc<RefCell<SsT>>", "new Ss(%d)", "{x}.borrow().get()"), "b": ("&Rc<RefCell<SsT>>", "new Ss(%d)", "{x}.borrow().get()"),
    "c": ("CcT", "new Cc(%d)", "{x}.get()"), "a": ("Vec<CcT>", "new Cc[]{new Cc(%d)}", "{x}[0].get()"), "x": ("Arc<Mutex<AmT>>", "new Am(%d)", "{x}.lock().unwrap().get()"),
}


def gc_texts(shapes):
    desc, rs = "", None
    seen = False
    for f in ("Pl", "Cc", "Ss", "Am"):
        a, b, _ = texts(f)
        lines = a.splitlines()
        if not seen:
            desc += lines[0] + "\n"
            rs = b[:b.index("pub struct %sT" % f)]
            rs = rs[:rs.rindex("#[derive")] if rs.rstrip().endswith("]") else rs
            seen = True
        t = f + "T"
        st = FL[f]["st"]
        body = 'pub fn get(&self) -> i32 { self.core.get() } pub fn set(&mut self, v: i32) { self.core.set(v) }'
        desc += "foreign_class!(%s class %s { self_type %s; constructor %s_new(v: i32) -> %s; fn %s::get(&self) -> i32; %s });\n" % (FL[f].get("derive", ""), f, t, f.lower(), st, t, "fn %s::clone(&self) -> %s;" % (t, t) if FL[f].get("clone") else "")
        rs += "%spub struct %s { core: track::Core }\nimpl %s { %s }\npub fn %s_new(v: i32) -> %s { %s }\n" % ("#[derive(Clone)] " if FL[f].get("clone") else "", t, t, body, f.lower(), st, FL[f].get("wrap", "%s") % ("%s { core: track::Core::new(v) }" % t))
    st_d, st_r, me_d, me_r, rest = [], [], [], [], ""
    J, calls = [], []
    for sh in shapes:
        ps = ", ".join("%sx%d: %s" % ("", k, ARGS[c][0]) for k, c in enumerate(sh))
        val = "[%s].iter().fold(0i32, |s, v| s * 7 + v)" % ", ".join(ARGS[c][2].format(x="x%d" % k) for k, c in enumerate(sh))
        want = 0
        for k in range(len(sh)):
            want = want * 7 + 3 + k
        av = ", ".join(ARGS[c][1] % (3 + k) for k, c in enumerate(sh))
        mps = re.sub(r"(x\d+): (Vec|PlT|Option<PlT>)", r"\1: \2", ps)
        st_d.append("fn st::f_%s(%s) -> i32;" % (sh, ps))
        st_r.append("pub fn f_%s(%s) -> i32 { %s }" % (sh, mps, val))
        calls.append(("static/" + sh, "return St.f_%s(%s);" % (sh, av), want))
        st_d.append("fn st::e_%s(%s) -> Result<Option<i32>, String>;" % (sh, ps))
        st_r.append("pub fn e_%s(%s) -> Result<Option<i32>, String> { Ok(Some(%s)) }" % (sh, mps, val))
        calls.append(("static_result/" + sh, "return St.e_%s(%s).getAsInt();" % (sh, av), want))
        me_d.append("fn Me::f_%s(&self%s) -> i32; fn Me::v_%s(&mut self%s); " % (sh, ", " + ps, sh, ", " + ps))
        me_r.append("pub fn f_%s(&self, %s) -> i32 { %s } pub fn v_%s(&mut self, %s) { self.0 = %s; }" % (sh, mps, val, sh, mps, val))
        calls.append(("method/" + sh, "return me.f_%s(%s);" % (sh, av), want))
        calls.append(("void_method/" + sh, "me.v_%s(%s); return me.last();" % (sh, av), want))
        if len(sh) <= 2:
            rest += "foreign_class!(class N_%s { self_type N_%s; constructor N_%s::new(%s) -> N_%s; fn N_%s::get(&self) -> i32; });\nforeign_class!(class M_%s { self_type M_%s; constructor M_%s::new(%s) -> Result<M_%s, String>; fn M_%s::get(&self) -> i32; });\n" % ((sh,) * 3 + (ps,) + (sh,) * 5 + (ps,) + (sh,) * 2)
            rs += "pub struct N_%s(i32); impl N_%s { pub fn new(%s) -> Self { Self(%s) } pub fn get(&self) -> i32 { self.0 } }\npub struct M_%s(i32); impl M_%s { pub fn new(%s) -> Result<Self, String> { Ok(Self(%s)) } pub fn get(&self) -> i32 { self.0 } }\n" % (sh, sh, mps, val, sh, sh, mps, val)
            calls.append(("constructor/" + sh, "N_%s n = new N_%s(%s); int w = n.get(); java.lang.ref.Reference.reachabilityFence(n); return w;" % (sh, sh, av), want))
            calls.append(("fallible_constructor/" + sh, "M_%s n = new M_%s(%s); int w = n.get(); java.lang.ref.Reference.reachabilityFence(n); return w;" % (sh, sh, av), want))
    # the receiver itself, with nothing else that keeps it
    calls.append(("receiver/", "return new Pl(3).get();", 3))
    desc += "foreign_class!(class St {\n%s\n});\nforeign_class!(class Me { self_type Me; constructor Me::new() -> Me; fn Me::last(&self) -> i32;\n%s\n});\n" % ("\n".join(st_d), "\n".join(me_d)) + rest
    rs += "pub mod st { use super::*;\n%s\n}\npub struct Me(i32); impl Me { pub fn new() -> Me { Me(0) } pub fn last(&self) -> i32 { self.0 }\n%s\n}\n" % ("\n".join(st_r), "\n".join(me_r))
    J = "package org.fg;\nimport mcs.Sched;\npublic final class Gc {\nstatic Me me;\nstatic long steps = 0, runs = 0;\n"
    J += "interface C { int run() throws Throwable; }\n"
    for k, (n, c, w) in enumerate(calls):
        J += "static int c%d() throws Throwable { %s }\n" % (k, c)
    J += r'''static void go(String n, int want, C c) throws Throwable {
  Sched.test = Thread.currentThread();
  Sched.target = -1;
  Sched.at = 0;
  Sched.mode = 2;
  for (int k = -1; k < 64; ++k) {
    Sched.at = 0;
    Sched.target = k;
    int got = c.run();
    int pts = Sched.at;
    Sched.at = Integer.MIN_VALUE;
    ++runs;
    String e = Trk.error();
    steps += pts;
    if (!e.isEmpty() || got != want) {
      System.out.println("VIOL\t" + n + "\t" + (e.isEmpty() ? "result " + got + ", expected " + want : e) + "\tcollector at point " + k + " of " + pts);
      Trk.forget();
      break;
    }
    if (k + 1 >= pts) break;
  }
  Sched.mode = 0;
  System.out.println("STATE\t" + n);
}
public static void main(String[] a) throws Throwable {
  System.load(System.getProperty("fg.lib"));
  Trk.forget();
  int shard = Integer.parseInt(a[0]), shards = Integer.parseInt(a[1]);
  int base = (int) Trk.born();
  me = new Me();
'''
    parts, cur = [], []
    for k, (n, c, w) in enumerate(calls):
        cur.append("if (%d %% shards == shard) go(\"%s\", %d, () -> c%d());" % (k, n, w, k))
        if len(cur) == 100 or k == len(calls) - 1:
            parts.append("\n".join(cur))
            cur = []
    J += "\n".join("p%d(shard, shards);" % k for k in range(len(parts)))
    J += r'''
  for (int k = 0; k < 8 && Trk.live(base) != 0; ++k) { System.gc(); System.runFinalization(); }
  if (Trk.live(base) != 0) System.out.println("VIOL\tnever_collected\tobjects alive although nothing refers to them: " + Trk.live(base) + "\tend");
  String e = Trk.error();
  if (!e.isEmpty()) System.out.println("VIOL\tcollected\t" + e + "\tend");
  System.out.println("STATS\tgc\tsteps=" + steps + "\tseq=" + runs);
  System.out.flush();
  Runtime.getRuntime().halt(0);
}
'''
    J += "\n".join("static void p%d(int shard, int shards) throws Throwable {\n%s\n}" % (k, p) for k, p in enumerate(parts)) + "\n}\n"
    return desc, rs, J


def collector(r, tool):
    L = "irmovqghbcaxs"
    shapes = list(L) + [a + b for a in L for b in L] + ["rrr", "rvr", "ioi", "mor", "rrrr", "vqhg", "rrrrrrrr", "orgbrogb", "hhhcaxra"]
    if r.thorough:
        shapes += [a + b + c for a in "irovhga" for b in "irovhgmq" for c in "irovhgb" if a + b + c not in shapes]
    desc, rs, J = gc_texts(shapes)

    def go(x):
        n, cfg = x
        d = os.path.join(r.work, "gc-" + n)
        b = jkit.build(r, d, desc, rs, {"org/fg/Gc.java": J}, cfg, jcp=[tool])
        if b.problem:
            return n, b, []
        instrument(tool, b)
        sh = 8 if r.thorough else 4
        return n, b, pmap(lambda k: run(b.cmd("org.fg.Gc", k, sh, flags=["-Xcomp", "-XX:CompileCommand=quiet", "-XX:CompileCommand=compileonly,org.fg.*::*", "-Xmx48m", "-Xmn8m"]), timeout=880 if not r.thorough else 6000), range(sh), workers=4)
    for n, b, ps in pmap(go, [("generated", {}), ("std", {"fence": "std"})], workers=2):
        if b.problem:
            r.violation("gc_%s/%s" % (n, b.kind), b.problem)
            continue
        for p in ps:
            absorb(r, "gc_" + n, p)
    r.extra["collector_shapes"] = len(shapes)


def check(r):
    built = []
    for f, b, desc in pmap(lambda f: build(r, f), FL):
        if b.problem:
            r.violation("%s/%s" % (f, b.kind), b.problem + "\n" + desc, {"description": desc})
        else:
            built.append((f, b, desc))
    histories(r, built)
    emptied(r, built)
    tool = instr_tool(r)
    races(r, tool)
    collector(r, tool)
    r.extra["flavours"] = [x[0] for x in built]
