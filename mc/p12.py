"""P12: Python. Every value of the type matrix in every position; refused values; histories of wrappers."""
import json, os, shutil
from common import *
import pykit, pyvals
from pyvals import V, Ty

LEVEL = "model_checking"
ASSUMPTIONS = ["integers, floats and strings by boundary values; floats compared bit for bit (NaN: the quiet one)", "one interpreter; the interpreter lock is held during native calls"]
LT = re.compile(r"&(?!')")


def program(types):
    """(description, Rust, data for the Python side)"""
    D, R, ID, IR, C, data = [], [], [], [], [], []
    for t in types:
        n = t.name
        x = dict(n=n, spec=t.spec)
        if t.outv:
            D.append("fn w::r_%s(k: u32) -> %s;" % (n, t.rs))
            R.append("pub fn r_%s(k: u32) -> %s { hit(); match k { %s _ => panic!() } }" % (n, t.ret, " ".join("%d => %s," % (k, v.rs) for k, v in enumerate(t.outv))))
            ID.append("fn Inst::s_%s(&self, k: u32) -> %s;" % (n, t.rs))
            IR.append("pub fn s_%s(&self, k: u32) -> %s { w::r_%s(k) }" % (n, t.ret, n))
            x["out"] = [v.ser for v in t.outv]
        if t.inv:
            x["in"] = [(v.py, v.ser) for v in t.inv]
            x["bad"] = t.bad
            D.append("fn w::a_%s(x: %s) -> String;" % (n, t.rs))
            R.append("pub fn a_%s(x: %s) -> String { hit(); x.ser() }" % (n, t.rs))
            ID.append("fn Inst::m_%s(&self, y: u8, x: %s, z: i64) -> String;" % (n, t.rs))
            IR.append('pub fn m_%s(&self, y: u8, x: %s, z: i64) -> String { hit(); format!("{}|{}|{}|{}", self.tag, y, x.ser(), z) }' % (n, t.rs))
            ID.append("fn Inst::n_%s(&mut self, x: %s) -> i32;" % (n, t.rs))
            IR.append('pub fn n_%s(&mut self, x: %s) -> i32 { hit(); self.last = x.ser(); self.calls += 1; self.calls }' % (n, t.rs))
            C.append("foreign_class!(class K_%s { self_type K_%s; constructor K_%s::new(x: %s, y: u16) -> K_%s; fn K_%s::text(&self) -> String; });\n" % ((n,) * 3 + (t.rs, n, n)))
            R.append("pub struct K_%s(String); impl K_%s { pub fn new(x: %s, y: u16) -> K_%s { hit(); K_%s(format!(\"{}|{}\", x.ser(), y)) } pub fn text(&self) -> String { self.0.clone() } }" % (n, n, t.rs, n, n))
            if t.outv and "&" not in t.rs:
                x["idn"] = 1
                D.append("fn w::i_%s(x: %s) -> %s;" % (n, t.rs, t.rs))
                R.append("pub fn i_%s(x: %s) -> %s { hit(); x }" % (n, t.rs, t.rs))
                ID.append("fn Inst::j_%s(&self, x: %s) -> Result<%s, MyErr>;" % (n, t.rs, t.rs))
                IR.append("pub fn j_%s(&self, x: %s) -> Result<%s, MyErr> { hit(); Ok(x) }" % (n, t.rs, t.rs))
        data.append(x)
    desc = pyvals.DESC + "foreign_class!(class W {\nfn w::hits() -> u64;\n%s\n});\n" % "\n".join(D)
    desc += "foreign_class!(class Inst { self_type Inst; constructor Inst::new(tag: i32) -> Inst; fn Inst::last(&self) -> String;\n%s\n});\n" % "\n".join(ID) + "".join(C)
    rust = pyvals.RUST + "#[allow(non_camel_case_types, non_snake_case)] pub mod w { use super::*; static HITS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); pub fn hit() { HITS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } pub fn hits() -> u64 { HITS.load(std::sync::atomic::Ordering::SeqCst) }\n%s\n}\n#[allow(unused_imports)] use w::*;\n" % "\n".join(R)
    rust += "pub struct Inst { tag: i32, calls: i32, last: String }\n#[allow(non_snake_case)] impl Inst { pub fn new(tag: i32) -> Inst { Inst { tag, calls: 0, last: String::new() } } pub fn last(&self) -> String { self.last.clone() }\n%s\n}\n" % "\n".join(IR)
    return desc, rust, data


PYMAIN = r'''
import json, sys, faulthandler
faulthandler.dump_traceback_later(500, exit=True)
import fgmod, pyser
from pyser import *
G = dict(fgmod=fgmod, f32=f32, f64=f64)
W, I = fgmod.W, fgmod.Inst(41)
calls = 0
for t in json.load(open(sys.argv[1])):
    N, sp = t["n"], t["spec"]
    fn = lambda o, p: getattr(o, p + "_" + N)
    for k, want in enumerate(t.get("out", [])):
        chk("ret/" + N, k, call(sp, lambda: fn(W, "r")(k)), want)
        chk("ret_method/" + N, k, call(sp, lambda: fn(I, "s")(k)), want)
    K = getattr(fgmod, "K_" + N, None)
    for k, (py, want) in enumerate(t.get("in", [])):
        mk = lambda: eval(py, G)
        st = "s" + want.encode().hex()
        chk("arg/" + N, k, call("S", lambda: fn(W, "a")(mk())), st)
        chk("keyword/" + N, k, call("S", lambda: fn(W, "a")(x=mk())), st)
        m = "41|%d|%s|%d" % (k + 7, want, -5000000000 - k)
        chk("method/" + N, k, call("S", lambda: fn(I, "m")(k + 7, mk(), -5000000000 - k)), "s" + m.encode().hex())
        chk("keyword_method/" + N, k, call("S", lambda: fn(I, "m")(z=-5000000000 - k, x=mk(), y=k + 7)), "s" + m.encode().hex())
        calls += 1
        chk("mut_method/" + N, k, call("I", lambda: fn(I, "n")(mk())), str(calls))
        chk("mut_method/" + N, k, call("S", lambda: I.last()), st)
        chk("constructor/" + N, k, call("S", lambda: K(mk(), 65000 + k).text()), "s" + ("%s|%d" % (want, 65000 + k)).encode().hex())
        if "idn" in t:
            chk("identity/" + N, k, call(sp, lambda: fn(W, "i")(mk())), want)
            chk("identity_result/" + N, k, call(sp, lambda: fn(I, "j")(mk())), want)
    for b in t.get("bad", []):
        v = lambda: eval(b, G)
        refused("refused/" + N, b, lambda: fn(W, "a")(v()), W.hits)
        refused("refused_method/" + N, b, lambda: fn(I, "m")(1, v(), 2), W.hits)
        refused("refused_mut_method/" + N, b, lambda: fn(I, "n")(v()), W.hits)
        refused("refused_constructor/" + N, b, lambda: K(v(), 3), W.hits)
    if "in" in t:
        v = lambda: eval(t["in"][0][0], G)
        for w, f in (("missing", lambda: fn(W, "a")()), ("extra", lambda: fn(W, "a")(v(), v())), ("unknown", lambda: fn(W, "a")(v(), q=1)), ("twice", lambda: fn(W, "a")(v(), x=v())), ("missing_method", lambda: fn(I, "m")(1, v())), ("missing_constructor", lambda: K(v()))):
            refused("arity/" + N, w, f, W.hits)
    print("STATE\t" + N)
done()
'''


def build(r, tag, types):
    d = os.path.join(r.work, re.sub(r"\W", "_", tag))
    desc, rust, data = program(types)
    b = pykit.build(r, d, desc, rust)
    write(d + "/data.json", json.dumps(data))
    write(d + "/main.py", PYMAIN)
    return d, b, None if b.problem else b.run(d + "/main.py", d + "/data.json")


def pairs(T, names, two):
    D, R, data = [], [], []

    def add(name, args):
        D.append("fn w::%s(%s) -> String;" % (name, ", ".join("x%d: %s" % (i, t.rs) for i, t in enumerate(args))))
        R.append("pub fn %s(%s) -> String { [%s].join(\"|\") }" % (name, ", ".join("x%d: %s" % (i, t.rs) for i, t in enumerate(args)), ", ".join("x%d.ser()" % i for i in range(len(args)))))
        data.append((name, [t.name for t in args]))
    ts = [T[n] for n in names]
    if two:
        for a in ts:
            for b in ts:
                add("p_%s_%s" % (a.name, b.name), [a, b])
    else:
        for n in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 26):
            for off in range(0, len(ts), 2):
                add("l_%d_%d" % (n, off), [ts[(off + 5 * i) % len(ts)] for i in range(n)])
    desc = pyvals.DESC + "foreign_class!(class W {\n%s\n});\n" % "\n".join(D)
    rust = pyvals.RUST + "#[allow(non_camel_case_types, non_snake_case)] pub mod w { use super::*;\n%s\n}\n" % "\n".join(R)
    return desc, rust, dict(fns=data, types={t.name: [(v.py, v.ser) for v in t.inv] for t in ts})


PYPAIRS = r'''
import json, sys, faulthandler
faulthandler.dump_traceback_later(500, exit=True)
import fgmod, pyser
from pyser import *
G = dict(fgmod=fgmod, f32=f32, f64=f64)
d = json.load(open(sys.argv[1]))
for name, ts in d["fns"]:
    f = getattr(fgmod.W, name)
    for k in range(1, 4):
        vs = [d["types"][t][(k + i) % len(d["types"][t])] for i, t in enumerate(ts)]
        want = "s" + "|".join(v[1] for v in vs).encode().hex()
        chk("arguments/" + name, k, call("S", lambda: f(*[eval(v[0], G) for v in vs])), want)
        kw = [("x%d" % i, eval(v[0], G)) for i, v in enumerate(vs)]
        chk("keywords/" + name, k, call("S", lambda: f(**dict(kw[::-1]))), want)
        h = len(vs) // 2
        chk("mixed/" + name, k, call("S", lambda: f(*[v for _, v in kw[:h]], **dict(kw[:h - 1:-1] if h else kw[::-1]))), want)
    print("STATE\t" + name)
done()
'''


def absorb(r, name, p, rep=None):
    stats = False
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "VIOL":
            r.violation("%s/%s" % (name.split("#")[0], f[1]), f[2], dict(program=name, history=f[3], **(rep or {})))
        elif f[0] == "STATS":
            stats = True
            q = dict(x.split("=") for x in f[2:])
            r.transitions += int(q["steps"])
            r.traces += int(q["seq"])
        elif f[0] == "STATE":
            r.state((name, f[1]))
        elif f[0] == "SAMPLE":
            r.sample(f[1])
    if not stats:
        r.violation("%s/died" % name.split("#")[0], "the program did not finish (rc=%s):\n%s\n%s" % (p.returncode, p.stderr[-1800:], p.stdout[-600:]), {"program": name})


HIST_RS = r'''
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
#[derive(Clone, Copy, Debug)] pub enum En { A = 3, B = 5 }
#[derive(Debug)] pub struct MyErr(String);
impl std::fmt::Display for MyErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for MyErr {}
pub struct K { core: track::Core, v: AtomicI32 }
impl Clone for K { fn clone(&self) -> K { K { core: self.core.clone(), v: AtomicI32::new(self.v.load(SeqCst)) } } }
impl K {
  pub fn mk(v: i32) -> K { K { core: track::Core::new(0), v: AtomicI32::new(v) } }
  pub fn new(v: i32) -> STORE { WRAP(K::mk(v)) }
  pub fn get(&self) -> i32 { self.core.touch("get"); self.v.load(SeqCst) }
  pub fn id(&self) -> u32 { self.core.touch("id"); self.core.id }
  pub fn set(&self, v: i32) -> i32 { self.core.touch("set"); self.v.swap(v, SeqCst) }
  pub fn mset(&mut self, v: i32) -> i32 { self.core.touch("mset"); std::mem::replace(self.v.get_mut(), v) }
  pub fn to_string(&self) -> String { format!("K{}", self.get()) }
  pub fn other(&self, y: &K) -> i32 { self.get() * 10 + y.get() }
  pub fn fail_self(&self) -> Result<i32, MyErr> { Err(MyErr(format!("failed self {}", self.get()))) }
}
static HOLD: Mutex<Option<HELD>> = Mutex::new(None);
pub mod w { use super::*;
  pub fn born() -> u32 { trk_born() } pub fn live() -> u64 { trk_live() } pub fn reset() { trk_reset() } pub fn errors() -> String { track::reg().errors.join("; ") }
  pub fn drop_hold() { let x = HOLD.lock().unwrap().take(); drop(x); }
  pub fn by_value(x: K) -> i32 { x.get() }
  pub fn opt_value(x: Option<K>, y: i32) -> i32 { x.map(|x| x.get()).unwrap_or(0) * 10 + y }
  pub fn bad_last(x: &REFK, e: En) -> i32 { x.get() }
  pub fn bad_value(x: K, e: Vec<En>) -> i32 { x.get() }
  pub fn sum(x: Vec<K>) -> i32 { x.iter().map(|x| x.get()).sum() }
  pub fn sums(x: &[K]) -> i32 { x.iter().map(|x| x.get()).sum() }
  pub fn fail(x: K) -> Result<STORE, MyErr> { Err(MyErr(format!("failed {}", x.get()))) }
  pub fn fail_ref(x: &K) -> Result<i32, MyErr> { Err(MyErr(format!("failed ref {}", x.get()))) }
  pub fn make(v: i32, ok: bool) -> Result<STORE, MyErr> { if ok { Ok(WRAP(K::mk(v))) } else { Err(MyErr(format!("no {}", v))) } }
  pub fn two(x: &K, y: &K) -> i32 { x.get() * 10 + y.get() }
  pub fn swap(x: &mut K, y: &mut K) -> i32 { let r = x.get() * 10 + y.get(); let a = x.get(); x.set(y.get()); y.set(a); r }
  pub fn smset(x: &mut K, v: i32) -> i32 { x.mset(v) }
  BODY
}
'''
STORE = {"Mu": "K", "Mx": "Mutex<K>", "Am": "Arc<Mutex<K>>", "Ar": "Arc<K>", "Bx": "Box<K>"}


def hist_program(kind):
    arc, mut, st = kind in ("Am", "Ar"), kind in ("Mu", "Mx", "Am"), STORE[kind]
    held = st if arc else "K"
    wrap = {"Mu": "(|x: K| x)", "Mx": "Mutex::new", "Am": "(|x: K| Arc::new(Mutex::new(x)))", "Ar": "Arc::new", "Bx": "Box::new"}[kind]
    lk = ".lock().unwrap()" if kind == "Am" else ""
    f = [("born", "", "u32"), ("live", "", "u64"), ("reset", "", "()"), ("errors", "", "String"), ("drop_hold", "", "()"), ("by_value", "x: K", "i32"), ("opt_value", "x: Option<K>, y: i32", "i32"),
         ("bad_last", "x: &%sK, e: En" % ("mut " if mut else ""), "i32"), ("bad_value", "x: K, e: Vec<En>", "i32"), ("sum", "x: Vec<K>", "i32"), ("sums", "x: &[K]", "i32"), ("fail", "x: K", "Result<%s, MyErr>" % st),
         ("fail_ref", "x: &K", "Result<i32, MyErr>"), ("make", "v: i32, ok: bool", "Result<%s, MyErr>" % st), ("two", "x: &K, y: &K", "i32")]
    if mut:
        f += [("swap", "x: &mut K, y: &mut K", "i32"), ("smset", "x: &mut K, v: i32", "i32")]
    g = [("keep_value", "x: K", "()", "*HOLD.lock().unwrap() = Some(%s(x));" % (wrap if arc else "")), ("hold_get", "", "i32", "HOLD.lock().unwrap().as_ref().unwrap()%s.get()" % lk),
         ("hold_set", "v: i32", "()", "HOLD.lock().unwrap().as_ref().unwrap()%s.set(v);" % lk)]
    if arc:
        g += [("same", "x: ST", "ST", "x"), ("same_opt", "x: Option<ST>", "Option<ST>", "x"), ("same_pair", "x: ST", "(ST, i32, ST)", "let v = x%s.get(); (x.clone(), v, x)" % lk), ("same_vec", "x: Vec<ST>", "Vec<ST>", "x"),
              ("same_ref", "x: &ST", "&ST", "x"), ("hold", "x: ST", "()", "let o = HOLD.lock().unwrap().replace(x); drop(o);"), ("hold_ref", "x: &ST", "()", "let o = HOLD.lock().unwrap().replace(x.clone()); drop(o);"), ("give", "", "Option<ST>", "HOLD.lock().unwrap().clone()")]
    else:
        g += [("echo", "x: K", "K", "x"), ("echo_ref", "x: &K", "&K", "x"), ("echo_opt", "x: Option<K>", "Option<K>", "x"), ("echo_pair", "x: &K", "(K, i32, K)", "(x.clone(), x.get(), x.clone())"), ("echo_vec", "x: Vec<K>", "Vec<K>", "x"),
              ("take", "", "Option<K>", "HOLD.lock().unwrap().take()")]
    g = [tuple(q.replace("ST", st) for q in x[:3]) + (x[3],) for x in g]
    body = "\n  ".join("pub fn %s(%s) -> %s { %s }" % x for x in g)
    rust = HIST_RS.replace("BODY", body).replace("STORE", st).replace("WRAP", wrap).replace("HELD", held).replace("REFK", "mut K" if mut else "K")
    desc = "foreign_enum!(enum En { A = En::A, B = En::B, });\nforeign_class!(#[derive(Clone)] class K { self_type K; constructor K::new(v: i32) -> %s; fn K::get(&self) -> i32; fn K::id(&self) -> u32; fn K::set(&self, v: i32) -> i32; fn K::to_string(&self) -> String; fn K::other(&self, y: &K) -> i32; fn K::fail_self(&self) -> Result<i32, MyErr>;%s });\n" % (st, " fn K::mset(&mut self, v: i32) -> i32;" if mut else "")
    desc += "foreign_class!(class W {\n%s\n});\n" % "\n".join("fn w::%s(%s) -> %s;" % x[:3] for x in f + g)
    return desc, "#![allow(warnings)]\n" * 0 + read(os.path.join(VERIF, "mc/rs/track.rs")) + rust


def hist(r, kind, probe=False):
    d = os.path.join(r.work, "hist_" + kind)
    desc, rust = hist_program(kind)
    b = pykit.build(r, d, desc, rust)
    if b.problem:
        return b, None
    return b, b.run(os.path.join(VERIF, "mc/pyhist.py"), kind, 3 if r.thorough else 2, 3 if r.thorough else 2, timeout=850)


TWICE = [("two_references", "fgmod.W.two(a, a)", "11"), ("receiver_and_reference", "a.other(a)", "11"), ("two_mutable_references", "fgmod.W.swap(a, a)", "11"), ("list", "fgmod.W.sum([a, a])", "2")]


def twice(r, kind, b):
    """the same object twice in one call"""
    for nm, e, want in TWICE:
        if nm == "two_mutable_references" and kind in ("Ar", "Bx"):
            continue
        s = write(b.d + "/twice_%s.py" % nm, "import faulthandler; faulthandler.dump_traceback_later(6, exit=True)\nimport fgmod\na = fgmod.K(1)\nprint('GOT', %s)\nprint('USABLE', a.get())\n" % e)
        p = b.run(s, timeout=60)
        r.transitions += 1
        r.traces += 1
        r.state(("twice", kind, nm))
        if "GOT %s\nUSABLE 1" % want not in p.stdout and "Error" not in p.stderr:
            r.violation("twice/%s/%s" % (kind, nm), "%s on an object stored as %s: %s" % (e, STORE[kind], "the call never returns" if "Timeout" in p.stderr else p.stdout[-200:] + p.stderr[-300:]), {"kind": kind, "expression": e})


def load_skip():
    return json.load(open(os.path.join(VERIF, "mc/specs/p12_skip.json")))


def directions(T, skip):
    """the types by direction: what is not refused"""
    import copy
    out = []
    for t in T.values():
        for d in ("in", "out"):
            x = copy.copy(t)
            x.inv, x.outv = (t.inv, None) if d == "in" else (None, t.outv)
            x.key = t.name + "/" + d
            if (x.inv or x.outv) and x.key not in skip:
                out.append(x)
    return out


def check(r):
    L = pyvals.leaves()
    T = pyvals.matrix(L, r.thorough)
    skip = load_skip()
    both = directions(T, skip)
    ok = {}
    for t in both:
        ok.setdefault(t.name, t)
        ok[t.name].inv, ok[t.name].outv = ok[t.name].inv or t.inv, ok[t.name].outv or t.outv
    use = list(ok.values())
    size = 60
    jobs = [("values#%d" % i, use[i:i + size]) for i in range(0, len(use), size)]

    def one(job):
        name, g = job
        d, b, p = build(r, name, g)
        if b.problem and len(g) > 1:
            h = len(g) // 2
            a, c = one((name + "l", g[:h])), one((name + "r", g[h:]))
            bad = [x for x in a + c if x[2].problem]
            return (a + c) if bad else a + c + [(name, g, b, p)]
        shutil.rmtree(d, ignore_errors=True)
        return [(name, g, b, p)]
    PAIR = [n for n in L if L[n].inv]
    jobs = [("pairs", True), ("long", False)] + jobs

    jobs = [("hist_" + k, None, k) for k in STORE] + jobs

    def go(job):
        if len(job) == 3:
            b, p = hist(r, job[2])
            if p:
                twice(r, job[2], b)
            return [(job[0], None, b, p)]
        if isinstance(job[1], bool):
            d = os.path.join(r.work, job[0])
            desc, rust, data = pairs({n: L[n] for n in PAIR}, PAIR if job[1] is False else [n for n in PAIR if r.thorough or n in pyvals.REPS or n in ("f32", "usz", "i64", "mum", "amra", "mxrx", "bxr")], job[1])
            b = pykit.build(r, d, desc, rust)
            write(d + "/data.json", json.dumps(data))
            return [(job[0], None, b, None if b.problem else b.run(write(d + "/main.py", PYPAIRS), d + "/data.json"))]
        return one(job)
    for res in pmap(go, jobs):
        for name, g, b, p in res:
            if b.problem:
                r.violation("%s/%s/%s" % (name.split("#")[0], g[0].name if g else "all", b.kind), "%s: %s" % (", ".join(t.rs for t in g or [])[:300], b.problem))
            else:
                absorb(r, name, p)
    r.extra["types"] = len(use)


if __name__ == "__main__":
    # survey: which types of the matrix does the tree accept?
    os.environ.setdefault("VERIF_TIER", "quick")
    r = Report("P12survey")
    build_driver()
    pykit.cpython_rlib()
    L = pyvals.leaves()
    T = pyvals.matrix(L, True)
    skip = {}

    def part(ts):
        d, b, p = build(r, "sv_%s_%d" % (ts[0].key.replace("/", "_"), len(ts)), ts)
        shutil.rmtree(d, ignore_errors=True)
        if b.problem:
            if len(ts) == 1:
                return {ts[0].key: (b.kind, b.problem[:400])}
            h = len(ts) // 2
            return dict(**part(ts[:h]), **part(ts[h:]))
        if len(ts) == 1 or ("VIOL" not in p.stdout and "STATS" in p.stdout):
            return {} if "VIOL" not in p.stdout and "STATS" in p.stdout else {ts[0].key: ("run", (p.stdout + p.stderr)[:400])}
        print("RUN", (p.stdout + p.stderr[-300:])[:1500], flush=True)
        return {}
    ts = directions(T, {})
    T = {t.key: t for t in ts}
    # the generator first, one by one
    def refused(t):
        d = os.path.join(r.work, "g_" + t.key.replace("/", "_"))
        os.makedirs(d + "/out", exist_ok=True)
        desc, _, _ = program([t])
        g = gen(dict(lang="python", srcs=[write(d + "/d.rs.in", desc)], out_rs=d + "/glue.rs", out_dir=d + "/out", module=pykit.MOD), d)
        shutil.rmtree(d, ignore_errors=True)
        return None if g.ok else tail_err(g.err)[:300]
    for t, e in zip(ts, pmap(refused, ts)):
        if e:
            skip[t.key] = ("refused", e)
    print("refused", len(skip), flush=True)
    ts = [t for t in ts if t.key not in skip]
    for x in pmap(part, [ts[i:i + 16] for i in range(0, len(ts), 16)]):
        skip.update(x)
    json.dump({k: [v[0], T[k].rs, v[1].split("\n\n")[0][-200:]] for k, v in sorted(skip.items())}, open("/tmp/p12_skip.json", "w"), indent=0)
    print(len(T), len(skip))
