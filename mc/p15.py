"""P15: the foreign API is exactly the one described. Descriptions from a feature menu (every ordered pair of members, class
level features, interfaces, enumerations, awkward names) through the real generator; the API read back from the output by the
compilers' own parsers (javac tree API, clang AST, Python introspection) and compared with the description; every method called."""
import itertools, json, os, shutil
from common import *
import cppkit, jkit, pykit

LEVEL = "model_checking"
ASSUMPTIONS = ["two members per class at a time (plus the constructor), larger classes sampled by the all-members class", "generated helpers (native methods, package-private items, the wrapper's own operations) are not part of the described API"]


class M:
    def __init__(self, kind, fn, args=(), ret="", access="", alias="", doc=(), recv="", rust=None, up="T", unnamed=()):
        self.kind, self.fn, self.args, self.ret, self.access, self.alias, self.doc, self.recv, self.up, self.unnamed = kind, fn, list(args), ret, access, alias, list(doc), recv, up, unnamed


MENU = {
    "ctor": M("ctor", "with", [("a", "i32"), ("my_arg", "bool")], doc=["ctor doc"]),
    "ctor_priv": M("ctor", "without", access="private"),
    "ctor_prot": M("ctor", "third", [("z", "i64"), ("s", "&str")], access="protected", doc=["third", "way <b>to</b> make & take"]),
    "st": M("static", "st_one", [("b", "i64"), ("a_b", "i32")], "String", doc=["first line", "", "  third `line` @ \"x\""]),
    "st_alias": M("static", "st_two", [], "i32", alias="two_alias"),
    "st_prot": M("static", "st_prot", [("x", "u8")], access="protected"),
    "st_priv": M("static", "st_priv", [("x", "i32"), ("y", "&str")], "i32", access="private", doc=["hidden"]),
    "me": M("method", "me_one", [("some_arg", "&str"), ("k", "i32")], "String", recv="&self", doc=["one"]),
    "me_mut": M("method", "me_mut", [("v", "i32")], recv="&mut self"),
    "me_priv": M("method", "me_priv", [("q", "f64")], "f64", access="private", alias="privAlias", recv="&self"),
    "me_prot": M("method", "me_prot", [], "i32", access="protected", recv="&mut self", doc=["protected doc"]),
    "inl": M("inline", "inl_it", [("w", "i32")], "i32", recv="&self", doc=["inline doc"]),
    "inl_st": M("inline", "inl_st", [("w", "i32"), ("u", "i64")], "i64"),
    "over_i": M("method", "over_i", [("x", "i32")], "i32", alias="over", recv="&self"),
    "over_s": M("method", "over_s", [("x", "&str")], "i32", alias="over", recv="&self", doc=["the other"]),
    "tr": M("method", "from_trait", [("n", "bool")], "i32", recv="&self", up="Tr"),
    "free": M("method", "free_fn", [("a", "i32")], "i32", recv="&self", up="fr"),
    "unn": M("static", "unn_f", [("_", "i32"), ("b", "i64"), ("_", "bool")], "i32"),
    "like": M("static", "over", [("x", "i64")], "i32", alias="st_twoAlias"),      # a Rust name equal to another member's alias
    "snake": M("method", "a_long_2_name_x9", [], "i32", recv="&self"),
}
VAL = {"i32": ("-70007", "-70007"), "i64": ("-5000000000", "-5000000000"), "bool": ("true", "true"), "&str": ('"a,b"', "a,b"), "u8": ("250", "250"), "f64": ("1.5", "1.5")}
RET = {"": ("", None), "i32": ("%d", "i32"), "i64": ("%d", "i64"), "String": ('"r%d".to_string()', "String"), "f64": ("%d.5", "f64")}


def camel(n):
    """heck's lowerCamelCase for the names of the menu"""
    w = [x for x in n.split("_") if x]
    w = [y for x in w for y in re.findall(r"[A-Z]*[^A-Z]+|[A-Z]+", x)]
    return w[0].lower() + "".join(x[0].upper() + x[1:].lower() for x in w[1:])


class Cls:
    def __init__(self, name, members, doc=(), fc=(), camel=0, noself=0, empty=0):
        self.name, self.members, self.doc, self.fc, self.camel, self.noself, self.empty = name, members, list(doc), list(fc), camel, noself, empty

    def fname(self, m):
        return m.alias or (camel(m.fn) if self.camel else m.fn)


def docs(lines, ind=""):
    return "".join("%s///%s%s\n" % (ind, " " if l else "", l) for l in lines)


def ident(c, m, k):
    return "%s.%s" % (c.name, m.fn)


def desc_class(c, lang):
    T = c.name + "T"
    o = docs(c.doc) + ("#[derive(camelCaseAliases)]\n" if c.camel else "") + "class %s {\n" % c.name
    if not c.noself:
        o += "  self_type %s;\n" % T
    for i, f in enumerate(c.fc):
        if i == 0:
            o += "  foreign_code %s;\n" % json.dumps(f, ensure_ascii=False)
    if not c.noself:
        o += ("  private constructor = empty;\n" if c.empty else "") if not any(m.kind == "ctor" for m in c.members) and c.empty else ("" if any(m.kind == "ctor" for m in c.members) else "  constructor %s::mk(id: u8) -> %s;\n" % (T, T))
    for k, m in enumerate(c.members):
        up = T if m.up == "T" else "%s%s" % (c.name, m.up)
        ps = ", ".join(([m.recv] if m.recv else []) + ["%s: %s" % a for a in m.args])
        o += docs(m.doc, "  ") + "  " + (m.access + " " if m.access and lang != "python" else "")
        if m.kind == "ctor":
            o += "constructor %s::%s(%s) -> %s;\n" % (T, m.fn, ps, T)
        elif m.kind == "inline":
            o += "fn %s(%s)%s { crate::log(\"%s\", &[%s%s]); %s }\n" % (m.fn, ps, " -> " + m.ret if m.ret else "", ident(c, m, k), "&this.0 as &dyn std::fmt::Display, " if m.recv else "", ", ".join("&%s as &dyn std::fmt::Display" % a for a, _ in m.args), RET[m.ret][0] % (k + 3))
        else:
            o += "fn %s::%s(%s)%s;%s\n" % (up, m.fn, ps, " -> " + m.ret if m.ret else "", " alias %s;" % m.alias if m.alias else "")
    for f in c.fc[1:]:
        o += "  foreign_code %s;\n" % json.dumps(f, ensure_ascii=False)
    return "foreign_class!(\n%s}\n);\n" % o


def rust_class(c):
    T = c.name + "T"
    o, tr, fr = [], [], []
    for k, m in enumerate(c.members):
        if m.kind == "inline":
            continue
        args = [("x%d" % i, t) for i, (a, t) in enumerate(m.args)]
        ps = ", ".join(([m.recv] if m.recv else []) + ["%s: %s" % a for a in args])
        shown = ", ".join((["&%s.0 as &dyn std::fmt::Display" % ("this" if m.up == "fr" else "self")] if m.recv else []) + ["&%s as &dyn std::fmt::Display" % a for a, _ in args])
        if m.kind == "ctor":
            o.append("pub fn %s(%s) -> %s { crate::log(\"%s\", &[%s]); %s(%d) }" % (m.fn, ps, T, ident(c, m, k), shown, T, 40 + k))
            continue
        body = "crate::log(\"%s\", &[%s]); %s" % (ident(c, m, k), shown, RET[m.ret][0] % (k + 3) if m.ret else "")
        r = " -> " + m.ret if m.ret else ""
        if m.up == "Tr":
            tr.append(("fn %s(%s)%s" % (m.fn, ps, r), body))
        elif m.up == "fr":
            fr.append("pub fn %s(%s)%s { %s }" % (m.fn, ps.replace("&self", "this: &super::%s" % T), r, body))
        else:
            o.append("pub fn %s(%s)%s { %s }" % (m.fn, ps, r, body))
    t = "pub struct %s(pub u8);\nimpl %s { pub fn mk(id: u8) -> %s { %s(id) } %s }\n" % (T, T, T, T, "\n".join(o))
    if tr:
        t += "pub trait %sTr { %s }\nimpl %sTr for %s { %s }\n" % (c.name, " ".join(s + ";" for s, _ in tr), c.name, T, " ".join("%s { %s }" % x for x in tr))
    if fr:
        t += "#[allow(non_snake_case)] pub mod %sfr { %s }\n" % (c.name, " ".join(fr))
    return t


RUST = '''
static LOG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn log(f: &str, a: &[&dyn std::fmt::Display]) { let mut l = LOG.lock().unwrap(); l.push_str(f); l.push('('); for x in a { l.push_str(&x.to_string()); l.push(';'); } l.push(')'); }
pub struct WT; impl WT { pub fn take() -> String { std::mem::take(&mut *LOG.lock().unwrap()) } }
'''
WDESC = "foreign_class!(class W { fn WT::take() -> String; });\n"


def expected_call(c, m, k, me):
    a = ([str(me)] if m.recv else []) + [VAL[t][1] for _, t in m.args]
    return "%s(%s)" % (ident(c, m, k), "".join(x + ";" for x in a))


def ret_text(m, k):
    return {"": "", "i32": str(k + 3), "i64": str(k + 3), "String": "r%d" % (k + 3), "f64": "%d.5" % (k + 3)}[m.ret]


# ---- the classes
FC = {"java": ['    public static int fc_one() { return 17; } // "quoted" \\ and é\n', '    /* second */ public int fc_two = 5;\n'],
      "cpp": ['    static int fc_one() { return 17; } // "quoted" /  and é\n', '    enum { fc_two = 5 };\n']}
NOT_PY = ("ctor_prot", "ctor_priv", "inl", "inl_st", "over_s")


def classes(lang, full):
    out = []
    fc = FC.get(lang, [])
    names = [n for n in MENU if lang != "python" or n not in NOT_PY]
    docs3 = [[], ["class doc"], ["first", "", " second <T> & \"q\""]]
    n = 0

    def add(ms, **kw):
        nonlocal n
        kw.setdefault("doc", docs3[n % 3])
        kw.setdefault("fc", fc[:(n // 3) % 3])
        kw.setdefault("camel", (n // 2) % 2)
        out.append(Cls("C%d" % n, ms, **kw))
        n += 1

    def clash(a, b, cam):
        """overloads that the description itself makes ambiguous"""
        x, y = MENU[a], MENU[b]
        if lang == "cpp" and {a, b} == {"over_i", "over_s"}:     # the C++ back end has no overloads: both would be one C function
            return True
        if lang == "python":
            return (x.kind == y.kind == "ctor") or Cls("", []).fname(x) == Cls("", []).fname(y)
        return False
    for a in names:
        for cam in (0, 1):
            for d in range(3):
                add([MENU[a]], camel=cam, doc=docs3[d], fc=fc[:d])
    for a, b in itertools.permutations(names, 2):
        if not clash(a, b, 0):
            if full or lang != "cpp" or n % 3 == 0 or MENU[a].access != MENU[b].access:
                add([MENU[a], MENU[b]])
    for cam in (0, 1):
        for perm in (names, names[::-1]):
            ms = []
            for x in perm:
                if not any(clash(x, y, 0) for y in ms):
                    ms.append(x)
            add([MENU[x] for x in ms], camel=cam)
    for ms in (["st"], ["st_alias", "st"], ["like", "unn", "st"]):
        add([MENU[x] for x in ms], noself=1)
        if lang != "python":
            add([MENU[x] for x in ms], empty=1)
            add([MENU[x] for x in ms if x] + [MENU["me"], MENU["me_prot"]], empty=1)
    return out


def norm_doc(d):
    if d is None or d == "-":
        return None
    ls = [re.sub(r"^\s*", "", l).rstrip() for l in d.strip().split("\n")]
    return "\n".join(ls).strip() or None


def want_doc(lines):
    return norm_doc("\n".join(lines)) if lines else None


# ---- Java
JT = {"i32": "int", "i64": "long", "bool": "boolean", "&str": "String", "u8": "short", "f64": "double", "String": "String", "": "void"}


def api_java(c):
    out = {}
    for m in c.members + ([] if c.noself or c.empty or any(m.kind == "ctor" for m in c.members) else [M("ctor", "mk", [("id", "u8")])]):
        par = ", ".join("%s %s" % (JT[t], a if a != "_" else "a%d" % i) for i, (a, t) in enumerate(m.args))
        name = "<init>" if m.kind == "ctor" else c.fname(m)
        out[(name, par)] = (m.access or "public", "s" if not m.recv and m.kind != "ctor" else "", "null" if m.kind == "ctor" else JT[m.ret], "", want_doc(m.doc))
    return out


def read_java(r, d, files, pkg):
    tool = os.path.join(r.work, "apidump")
    if not os.path.exists(tool + "/ApiDump.class"):
        os.makedirs(tool, exist_ok=True)
        run(["javac", "-nowarn", "-d", tool, os.path.join(VERIF, "mc/java/ApiDump.java")], timeout=100, check=True)
    p = run(["java", "-cp", tool, "ApiDump"] + files, timeout=200, check=True)
    T = {}
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "ERROR":
            r.violation("java/syntax", f[1])
            continue
        file, owner, kind, acc, fl, name, ty, par, thr, doc, pk = f
        doc = None if doc == "-" else doc.replace("\\n", "\n").replace("\\\\", "\\")
        if not owner:
            T[name] = dict(kind=kind, access=acc, doc=norm_doc(doc), pkg=pk, file=file, members=[])
        else:
            T[owner]["members"].append((kind, acc, fl, name, ty, par, thr, norm_doc(doc)))
    return T


def diff(r, key, where, got, want):
    for k in sorted(set(got) | set(want), key=str):
        if k not in want:
            r.violation(key + "/extra", "%s: %s is not described: %s" % (where, k, got[k]))
        elif k not in got:
            r.violation(key + "/missing", "%s: %s %s is missing; there is %s" % (where, k, want[k], sorted(got, key=str)[:12]))
        elif got[k] != want[k]:
            r.violation(key + "/differs", "%s: %s is %s, described %s" % (where, k, got[k], want[k]))


def shape(c):
    return "+".join(next(n for n, m in MENU.items() if m is x) for x in c.members)[:60] + ("/camel" if c.camel else "")


def check_java(r, full):
    cs = classes("java", full)
    for pkg, part in (("org.fg", cs[0::2]), ("a.b_c.d1", cs[1::2])):
        d = os.path.join(r.work, "java_" + pkg)
        desc = WDESC + "".join(desc_class(c, "java") for c in part) + enums_desc() + ifaces_desc("java")
        rust = RUST + "".join(rust_class(c) for c in part) + enums_rust() + ifaces_rust()
        J = []
        for c in part:
            J.append('  static void t_%s() throws Throwable { Class<?> k = Class.forName("%s.%s"); Object o = null; %s }' % (c.name, pkg, c.name, " ".join(java_calls(c))))
        main = "package %s;\nimport java.lang.reflect.*;\npublic class Main {\n  static void chk(String w, Object got, String want) { String l = W.take(); String g = got + \"|\" + l; n++; if (!g.equals(want)) System.out.println(\"VIOL\\t\" + w + \"\\tgives \" + g + \", expected \" + want); }\n  static int n;\n  static Object inv(Class<?> k, Object o, String f, Class<?>[] t, Object... a) throws Throwable { Method m = k.getDeclaredMethod(f, t); m.setAccessible(true); return m.invoke(o, a); }\n  static Object mk(Class<?> k, Class<?>[] t, Object... a) throws Throwable { Constructor<?> m = k.getDeclaredConstructor(t); m.setAccessible(true); return m.newInstance(a); }\n%s\n  public static void main(String[] a) throws Throwable {\n    System.load(System.getProperty(\"fg.lib\"));\n    String[] names = {%s};\n    for (String x : names) try { Method m = Main.class.getDeclaredMethod(\"t_\" + x); m.invoke(null); } catch (InvocationTargetException e) { System.out.println(\"VIOL\\t\" + x + \"\\t\" + e.getCause()); }\n    System.out.println(\"DONE\\t\" + n); System.out.flush(); Runtime.getRuntime().halt(0);\n  }\n}\n" % (pkg, "\n".join(J), ", ".join('"%s"' % c.name for c in part))
        b = jkit.build(r, d, desc, rust, {pkg.replace(".", "/") + "/Main.java": main}, {"package": pkg})
        if b.problem:
            r.violation("java/" + b.kind, "java, package %s: %s" % (pkg, b.problem))
            continue
        jd = None
        for root, _, fs in os.walk(d):
            if part[0].name + ".java" in fs:
                jd = root
        T = read_java(r, d, [os.path.join(jd, f) for f in sorted(os.listdir(jd)) if f.endswith(".java") and f != "Main.java"], pkg)
        known = {c.name for c in part} | {"W", "UseI"} | {e[0] for e in ENUMS} | {i[0] for i in IFACES}
        for n, t in T.items():
            if n not in known and t["access"] == "public":
                r.violation("java/class/extra", "public type %s.%s was not described" % (pkg, n))
        for c in part:
            key, where = "java/" + shape(c), "Java class %s (%s)" % (c.name, shape(c))
            r.state(("java", pkg, c.name))
            r.transitions += 1
            t = T.get(c.name)
            if not t:
                r.violation(key + "/missing", where + " is missing")
                continue
            got, priv = {}, {}
            for kind, acc, fl, name, ty, par, thr, doc in t["members"]:
                if kind == "field" and name == "mNativeObj" or name in ("fc_one", "fc_two") or acc == "package":
                    continue
                e = (acc, fl.replace("n", ""), ty, thr, doc)
                (priv if acc == "private" else got)[(name, par)] = e
            want = api_java(c)
            if not c.noself:
                for k, e in ((("delete", ""), ("public", "", "void", "", None)), (("finalize", ""), ("protected", "", "void", "Throwable", None))):
                    if k in got:
                        want[k] = e
                    elif not c.empty:
                        want[k] = e
            for k, e in list(priv.items()):
                if k in want and k not in got:
                    got[k] = e
            if c.empty:
                want.pop(("<init>", ""), None)
                got.pop(("<init>", ""), None) if got.get(("<init>", ""), ("", ))[0] == "private" else 0
            diff(r, key, where, got, want)
            hdr = (t["kind"], t["access"], t["doc"], t["pkg"])
            if hdr != ("class", "public", want_doc(c.doc), pkg):
                r.violation(key + "/header", "%s: %s, described %s" % (where, hdr, ("class", "public", want_doc(c.doc), pkg)))
            src = read(os.path.join(jd, c.name + ".java"))
            if "".join(c.fc) not in src:
                r.violation(key + "/foreign_code", "%s: the foreign code is not there verbatim" % where)
        for name, doc, items in ENUMS:
            t = T.get(name)
            got = [(m[3], m[7]) for m in (t["members"] if t else []) if m[0] == "field" and "s" in m[2]]
            r.transitions += 1
            if not t or (t["doc"], got) != (want_doc(doc), [(n, want_doc(dd)) for n, dd in items]):
                r.violation("java/enum", "enum %s: %s" % (name, (t and t["doc"], got)))
        for name, doc, ms in IFACES:
            t = T.get(name)
            got = {m[3]: (m[4], m[5], m[7]) for m in (t["members"] if t else [])}
            r.transitions += 1
            if not t or t["doc"] != want_doc(doc) or t["kind"] != "interface":
                r.violation("java/interface/header", "%s: %s" % (name, t))
            diff(r, "java/interface", "interface " + name, got, {fn: (JT[ret], ", ".join("%s %s" % (JT[ty], a) for a, ty in args), want_doc(dd)) for fn, rf, args, ret, dd in ms})
        p = run(b.cmd(pkg + ".Main"), timeout=200)
        absorb(r, "java", p, part)
        shutil.rmtree(d, ignore_errors=True)


def java_calls(c):
    J = {"i32": ("int.class", "-70007"), "i64": ("long.class", "-5000000000L"), "bool": ("boolean.class", "true"), "&str": ("String.class", '"a,b"'), "u8": ("short.class", "(short) 250"), "f64": ("double.class", "1.5")}
    out, me = [], None
    if not c.noself and not c.empty:
        ct = [(k, m) for k, m in enumerate(c.members) if m.kind == "ctor"]
        for k, m in ct or [(None, M("ctor", "mk", [("id", "u8")]))]:
            ts, vs = ", ".join(J[t][0] for _, t in m.args), "".join(", " + J[t][1] for _, t in m.args)
            if k is None:
                out.append('o = mk(k, new Class<?>[]{short.class}, (short) 9);')
                me = 9
            else:
                out.append('o = mk(k, new Class<?>[]{%s}%s); chk("%s/%s", "", "|%s");' % (ts, vs, c.name, m.fn, expected_call(c, m, k, 0)))
                me = 40 + k
    for k, m in enumerate(c.members):
        if m.kind == "ctor" or m.recv and me is None:
            continue
        ts, vs = ", ".join(J[t][0] for _, t in m.args), "".join(", " + J[t][1] for _, t in m.args)
        out.append('{ Object x = inv(k, o, "%s", new Class<?>[]{%s}%s); chk("%s/%s", x == null ? "" : x, "%s|%s"); }' % (c.fname(m), ts, vs, c.name, m.fn, ret_text(m, k), expected_call(c, m, k, me)))
    if c.fc:
        out.append('chk("%s/foreign_code", inv(k, null, "fc_one", new Class<?>[]{}), "17|");' % c.name)
    return out


def absorb(r, lang, p, part):
    done = False
    sh = {c.name: shape(c) for c in part}
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "VIOL":
            n = f[1].split("/")
            r.violation("%s/call/%s/%s" % (lang, sh.get(n[0], n[0]), "/".join(n[1:])), "%s: calling %s %s" % (lang, f[1], f[2]))
        elif f[0] == "DONE":
            done = True
            r.traces += int(f[1])
    if not done:
        r.violation(lang + "/call/crash", "%s: the program died (%d): %s" % (lang, p.returncode, (p.stdout[-500:] + p.stderr)[-1500:]))


# ---- enumerations and interfaces (documentation, order, names)
ENUMS = [("Ea", [], [("One", []), ("Two", [])]), ("Eb", ["enum doc", "", "more <x>"], [("Red", ["r"]), ("green_ish", []), ("BLUE", ["b1", "", "b2"])]), ("Ec", ["e"], [("Only", ["only one"])])]
IFACES = [
    ("Ia", ["iface doc"], [("one", "one", [("first_arg", "i32"), ("b", "bool")], "i32", ["m doc"]), ("twoRenamed", "two", [], "", [])]),
    ("Ib", [], [("z_last", "z_last", [("x", "f64")], "", []), ("a_first", "other", [("x", "i64"), ("s", "&str")], "i64", ["d1", "", "d2 & <y>"])]),
    ("Ic", ["d1", "d2"], [("m%d" % i, "n%d" % (7 - i), [("p%d" % j, ("i32", "bool", "i64", "f64")[(i + j) % 4]) for j in range(i)], ("", "i32")[i % 2], ["doc %d" % i] if i % 3 else []) for i in range(8)]),
]


def enums_desc():
    return "".join("foreign_enum!(\n%senum %s {\n%s}\n);\n" % (docs(d), n, "".join("%s  %s = %s::V%d,\n" % (docs(dd, "  "), i, n, k) for k, (i, dd) in enumerate(it))) for n, d, it in ENUMS)


def enums_rust():
    return "".join("#[derive(Clone, Copy)] pub enum %s { %s }\n" % (n, ", ".join("V%d" % k for k in range(len(it)))) for n, d, it in ENUMS)


def ifaces_desc(lang):
    o = "".join("foreign_callback!(\n%scallback %s {\n  self_type T%s;\n%s}\n);\n" % (docs(d), n, n, "".join("%s  %s = T%s::%s(&self%s)%s;\n" % (docs(dd, "  "), fn, n, rf, "".join(", %s: %s" % a for a in args), " -> " + ret if ret else "") for fn, rf, args, ret, dd in ms)) for n, d, ms in IFACES)
    return o + "foreign_class!(class UseI { %s });\n" % " ".join("fn ui::u_%s(cb: Box<dyn T%s>);" % (n, n) for n, _, _ in IFACES)


def ifaces_rust():
    o = "".join("pub trait T%s { %s }\n" % (n, " ".join("fn %s(&self%s)%s;" % (rf, "".join(", %s: %s" % a for a in args), " -> " + ret if ret else "") for fn, rf, args, ret, dd in ms)) for n, d, ms in IFACES)
    return o + "pub mod ui { use super::*; %s }\n" % " ".join("pub fn u_%s(_cb: Box<dyn T%s>) {}" % (n, n) for n, _, _ in IFACES)


# ---- C++
CT = {"i32": "int32_t", "i64": "int64_t", "bool": "bool", "&str": "std::string_view", "u8": "uint8_t", "f64": "double", "String": "RustString", "": "void"}


def api_cpp(c):
    out = {}
    for m in c.members + ([] if c.noself or c.empty or any(m.kind == "ctor" for m in c.members) else [M("ctor", "mk", [("id", "u8")])]):
        par = ", ".join("%s %s" % (CT[t], a if a != "_" else "a%d" % i) for i, (a, t) in enumerate(m.args))
        name = "<init>" if m.kind == "ctor" else c.fname(m)
        out[(name, par)] = (m.access or "public", "s" if not m.recv and m.kind != "ctor" else "", "const" if m.recv == "&self" else "", "" if m.kind == "ctor" else CT[m.ret], want_doc(m.doc))
    return out


def comment_of(n):
    def walk(x):
        if x.get("kind") == "ParagraphComment":
            return [y.get("text", "") for y in x.get("inner", [])] + [""]
        return [z for y in x.get("inner", []) for z in walk(y)]
    for x in n.get("inner", []):
        if x.get("kind") == "FullComment":
            return walk(x)
    return None


def doc_at(lines, line):
    """the // lines right above a declaration"""
    out = []
    k = line - 2
    while k >= 0 and lines[k].strip().startswith("//"):
        out.insert(0, lines[k].strip()[2:])
        k -= 1
    return norm_doc("\n".join(out)) if out else None


def squash(t):
    t = re.sub(r"\b(class|struct|enum) ", "", t)
    t = t.replace("fg::", "").replace("inner::", "")
    return {"std::basic_string_view<char>": "std::string_view", "string_view": "std::string_view", "RustString": "RustString"}.get(t.strip(), t.strip())


def read_cpp(text, lines):
    """clang's AST of one class template -> its members"""
    dec, pos, out, header = json.JSONDecoder(), 0, [], None
    while True:
        while pos < len(text) and text[pos] != "{":
            pos += 1
        if pos >= len(text):
            break
        o, pos = dec.raw_decode(text, pos)
        recs = []
        if o.get("kind") == "ClassTemplateDecl":
            recs = [x for x in o.get("inner", []) if x.get("kind") == "CXXRecordDecl" and x.get("completeDefinition")]
        elif o.get("kind") == "CXXRecordDecl" and o.get("completeDefinition"):
            recs = [o]
        for rec in recs:
            if header is not None:
                continue
            header = o
            acc = "private" if rec.get("tagUsed") == "class" else "public"
            line = rec.get("loc", {}).get("line")
            for x in rec.get("inner", []):
                if x.get("kind") == "AccessSpecDecl":
                    acc = x["access"]
                elif x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl", "FieldDecl", "VarDecl", "FunctionTemplateDecl") and not x.get("isImplicit"):
                    out.append((acc, x))
    return header, out


def check_cpp(r, full):
    cs = classes("cpp", full)
    ns = "fg::inner"
    size = 40
    parts = [cs[i:i + size] for i in range(0, len(cs), size)]

    def one(x):
        i, part = x
        d = os.path.join(r.work, "cpp_%d" % i)
        os.makedirs(d, exist_ok=True)
        desc = WDESC + "".join(desc_class(c, "cpp") for c in part) + (enums_desc() + ifaces_desc("cpp") if i == 0 else "")
        rust = RUST + "".join(rust_class(c) for c in part) + (enums_rust() + ifaces_rust() if i == 0 else "")
        inc = "".join('#include "%s.hpp"\n' % c.name for c in part) + '#include "W.hpp"\n' + ("".join('#include "%s.hpp"\n' % n for n in [e[0] for e in ENUMS] + [f[0] for f in IFACES]) if i == 0 else "")
        main = inc + "#include <cstdio>\n#include <sstream>\nusing namespace %s;\nstatic int n;\ntemplate<class T> static std::string tx(const T &x) { std::ostringstream o; o << x; return o.str(); }\nstatic std::string tx(const RustString &x) { return x.to_std_string(); }\nstatic void chk(const char *w, const std::string &got, const std::string &want) { std::string g = got + \"|\" + W::take().to_std_string(); ++n; if (g != want) printf(\"VIOL\\t%%s\\tgives %%s, expected %%s\\n\", w, g.c_str(), want.c_str()); }\n%s\nint main() { %s printf(\"DONE\\t%%d\\n\", n); }\n" % (ns, "\n".join("static void t_%s() { %s }" % (c.name, " ".join(cpp_calls(c))) for c in part), " ".join("t_%s();" % c.name for c in part))
        b = cppkit.build(r, d, desc, rust, write(d + "/main.cpp", main), {"ns": ns}, opt="-O0", extra_flags=("-fno-access-control",))
        asts, p = {}, None
        if not b.problem:
            p = run([b.exe], timeout=100, env=env(**cppkit.SAN_ENV))
            write(d + "/ast.cpp", inc)
            for c in part:
                q = run(["clang++", "-std=c++17", "-fsyntax-only", "-I", d + "/out", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=%sWrapper" % c.name if not c.noself else "-ast-dump-filter=%s::%s" % (ns, c.name), write(d + "/ast_%s.cpp" % c.name, '#include "%s.hpp"\n' % c.name)], timeout=100)
                lines = read(d + "/out/%s.hpp" % c.name).split("\n")
                asts[c.name] = (read_cpp(q.stdout, lines), lines, q.returncode)
        extra = {}
        if i == 0 and not b.problem:
            for n in [e[0] for e in ENUMS] + [f[0] for f in IFACES]:
                h = d + "/out/" + ("c_" + n + ".h" if n.startswith("E") else n + ".hpp")
                extra[n] = read(h)
        shutil.rmtree(d, ignore_errors=True)
        return part, b, p, asts, extra
    for part, b, p, asts, extra in pmap(one, list(enumerate(parts))):
        if b.problem:
            r.violation("cpp/" + b.kind, "C++: %s" % b.problem)
            continue
        absorb(r, "cpp", p, part)
        for c in part:
            key, where = "cpp/" + shape(c), "C++ class %s (%s)" % (c.name, shape(c))
            (hdr, mem), lines, rc = asts[c.name]
            r.state(("cpp", c.name))
            r.transitions += 1
            if rc or hdr is None:
                r.violation(key + "/missing", "%s: clang finds no such class (%d)" % (where, rc))
                continue
            want, got = api_cpp(c), {}
            wrap = c.name + ("" if c.noself else "Wrapper")
            for acc, x in mem:
                name, ty, kind = x.get("name", ""), x.get("type", {}).get("qualType", ""), x["kind"]
                pars = ", ".join("%s %s" % (squash(y["type"]["qualType"]), y.get("name", "")) for y in x.get("inner", []) if y.get("kind") == "ParmVarDecl")
                line = x.get("loc", {}).get("line") or x.get("range", {}).get("begin", {}).get("line")
                if kind == "CXXConstructorDecl":
                    if wrap in pars or "SelfType" in pars:
                        continue
                    name = "<init>"
                elif kind in ("CXXDestructorDecl", "CXXConversionDecl") or name == "operator=" or name.startswith("operator"):
                    continue
                if name in ("release", "as_rref", "as_cref", "as_rmut", "self_", "free_mem", "fc_one"):
                    continue
                ret = "" if name == "<init>" else squash(ty.split("(")[0])
                got[(name, pars)] = (acc, "s" if x.get("storageClass") == "static" else "", "const" if re.search(r"\) const\b", ty) else "", ret, x)
            # line numbers are relative in clang's dump, documentation is found through the declaration's offset
            src = "\n".join(lines)
            for k, v in list(got.items()):
                off = v[4].get("range", {}).get("begin", {}).get("offset")
                ln = src.encode()[:off].count(b"\n") + 1 if off is not None else 0
                got[k] = v[:4] + (doc_at(lines, ln),)
            if c.empty:
                want.pop(("<init>", ""), None)
                got.pop(("<init>", ""), None)
            diff(r, key, where, got, want)
            off = hdr.get("range", {}).get("begin", {}).get("offset") or 0
            cd = doc_at(lines, src.encode()[:off].count(b"\n") + 1)
            if cd != want_doc(c.doc):
                r.violation(key + "/header", "%s: class documentation %r, described %r" % (where, cd, want_doc(c.doc)))
            if "".join(c.fc) not in src:
                r.violation(key + "/foreign_code", "%s: the foreign code is not there verbatim" % where)
            if "namespace fg::inner" not in src and not re.search(r"namespace\s+fg\s*\{[\s\S]*namespace\s+inner", src):
                r.violation(key + "/namespace", where + ": not in namespace " + ns)


def cpp_calls(c):
    J = {"i32": "-70007", "i64": "-5000000000LL", "bool": "true", "&str": '"a,b"', "u8": "250", "f64": "1.5"}
    out, me = [], None
    if not c.noself and not c.empty:
        ct = [(k, m) for k, m in enumerate(c.members) if m.kind == "ctor"]
        for k, m in ct or [(None, M("ctor", "mk", [("id", "u8")]))]:
            vs = ", ".join("%s(%s)" % (CT[t], J[t]) for _, t in m.args)
            if k is None:
                out.append("%s o{uint8_t(9)};" % c.name)
                me = 9
            else:
                out.append('%s o%s{%s}; chk("%s/%s", "", "|%s");' % (c.name, "" if m is ct[-1][1] else str(k), vs, c.name, m.fn, expected_call(c, m, k, 0)))
                me = 40 + k
    for k, m in enumerate(c.members):
        if m.kind == "ctor" or m.recv and me is None:
            continue
        vs = ", ".join("%s(%s)" % (CT[t], J[t]) for _, t in m.args)
        call = "%s%s(%s)" % ("o." if m.recv else c.name + "::", c.fname(m), vs)
        out.append('%s; chk("%s/%s", %s, "%s|%s");' % ("auto x%d = tx(%s)" % (k, call) if m.ret else call, c.name, m.fn, "x%d" % k if m.ret else '""', ret_text(m, k), expected_call(c, m, k, me)))
    if c.fc:
        out.append('chk("%s/foreign_code", tx(%s::fc_one()), "17|");' % (c.name, c.name))
    return out


# ---- Python
def check_python(r, full):
    cs = classes("python", full)
    size = 60
    J = {"i32": "-70007", "i64": "-5000000000", "bool": "True", "&str": '"a,b"', "u8": "250", "f64": "1.5"}

    def one(x):
        i, part = x
        d = os.path.join(r.work, "py_%d" % i)
        b = pykit.build(r, d, WDESC + "".join(desc_class(c, "python") for c in part), RUST.replace("{}", "{}") + "".join(rust_class(c) for c in part))
        if b.problem:
            return part, b, None
        L = ["import fgmod, json, sys", "n = 0", "def chk(w, got, want):", "    global n; n += 1", "    g = str(got) + '|' + fgmod.W.take()", "    if g != want: print('VIOL\\t%s\\tgives %s, expected %s' % (w, g, want))", "def api(c):", "    return {k: ('s' if type(v).__name__ in ('staticmethod', 'builtin_function_or_method') else 'm', getattr(c, k).__doc__) for k, v in vars(c).items() if not k.startswith('__') or k == '__repr__'}",
             "print('TYPES\\t' + json.dumps(sorted(k for k, v in vars(fgmod).items() if isinstance(v, type))))"]
        for c in part:
            L.append("print('API\\t%s\\t' + json.dumps([fgmod.%s.__doc__, api(fgmod.%s)]))" % (c.name, c.name, c.name))
            L.append("try:")
            me = None
            if not c.noself:
                ct = [(k, m) for k, m in enumerate(c.members) if m.kind == "ctor"]
                for k, m in ct or [(None, None)]:
                    if m is None:
                        L.append("    o = fgmod.%s(id=9)" % c.name)
                        me = 9
                    else:
                        L.append("    o = fgmod.%s(%s); chk('%s/%s', '', '|%s')" % (c.name, ", ".join("%s=%s" % (a, J[t]) for a, t in m.args), c.name, m.fn, expected_call(c, m, k, 0)))
                        me = 40 + k
            for k, m in enumerate(c.members):
                if m.kind == "ctor":
                    continue
                args = ", ".join(J[t] if a == "_" else "%s=%s" % (a, J[t]) for a, t in m.args) if "_" not in [a for a, _ in m.args] else ", ".join(J[t] for _, t in m.args)
                L.append("    x = %s.%s(%s); chk('%s/%s', '' if x is None else x, '%s|%s')" % ("o" if m.recv else "fgmod." + c.name, c.fname(m), args, c.name, m.fn, ret_text(m, k), expected_call(c, m, k, me).replace("true", "true")))
            L.append("    pass\nexcept Exception as e: print('VIOL\\t%s\\traises %%r' %% e)" % c.name)
        L.append("print('DONE\\t%d' % n)")
        p = b.run(write(d + "/t.py", "\n".join(L)))
        shutil.rmtree(d, ignore_errors=True)
        return part, b, p
    for part, b, p in pmap(one, [(i, cs[i:i + size]) for i in range(0, len(cs), size)]):
        if b.problem:
            r.violation("python/" + b.kind, "Python: %s" % b.problem)
            continue
        absorb(r, "python", p, part)
        api = {}
        for l in p.stdout.splitlines():
            f = l.split("\t")
            if f[0] == "API":
                api[f[1]] = json.loads(f[2])
            elif f[0] == "TYPES":
                ts = set(json.loads(f[1]))
                if ts != {c.name for c in part} | {"W", "Error"}:
                    r.violation("python/types", "types of the module: %s" % sorted(ts ^ ({c.name for c in part} | {"W", "Error"})))
        for c in part:
            key, where = "python/" + shape(c), "Python class %s (%s)" % (c.name, shape(c))
            r.state(("python", c.name))
            r.transitions += 1
            doc, mem = api.get(c.name, (None, {}))
            want = {c.fname(m): ("m" if m.recv else "s", want_doc(m.doc)) for m in c.members if m.kind != "ctor"}
            diff(r, key, where, {k: (v[0], norm_doc(v[1])) for k, v in mem.items()}, want)
            cd = c.doc + ([""] if c.doc and any(m.doc for m in c.members if m.kind == "ctor") else []) + [l for m in c.members if m.kind == "ctor" for l in m.doc]
            if norm_doc(doc) != want_doc(cd):
                r.violation(key + "/header", "%s: documentation %r, described %r" % (where, norm_doc(doc), want_doc(cd)))



# ---- awkward names
NAMES = """ret ret0 conv_ret convRet ret_val retval env obj obj0 class_ cls me p o x a0 a_0 a1 mNativeObj self_ rust_self this_ data len ptr opaque jenv jni_env cb v tmp tmp0 result res value marker out inp
s py slf args kwargs key err ok iter it f t i r e d n var val vec arr object type_ handle raw lock guard init do_get do_m1 get release free_mem finalize notify toString hashCode getClass clone drop as_rref as_cref as_rmut SelfType
value_type CForeignType int char boolean new default package native namespace template operator auto None True def lambda global interface signed NULL errno abort std fg cpython jni_throw jlong jint swig_from swig_into
ok_inner err_inner err0 rust_instance create_instance from_i64 from_jint InternalPointerMarker ref1 JNIReachabilityFence union delete throws final synchronized""".split()
POS = ("arg", "static", "method", "class", "cbmethod", "cbarg")
NDESC = "foreign_enum!(enum NEn { Aa = NEn::P, Bb = NEn::Q, });\nforeign_class!(#[derive(Clone)] class NOb { self_type NObT; constructor NObT::new(k: i32) -> NObT; fn NObT::clone(&self) -> NObT; });\n"
NRUST = """
#[derive(Clone, Copy, Debug, PartialEq)] pub enum NEn { P, Q }
#[derive(Clone)] pub struct NObT(pub i32); impl NObT { pub fn new(k: i32) -> NObT { NObT(k) } }
"""


def nunit(lang, name, pos, i):
    """(description, Rust, calls of the language as text) with every result logged in the order of the calls"""
    c = name if pos == "class" else "U%d" % i
    T = "U%dT" % i
    if pos in ("cbmethod", "cbarg"):
        m, a = (name, "q") if pos == "cbmethod" else ("zz", name)
        desc = "foreign_callback!(callback I%d { self_type IT%d; %s = IT%d::f(&self, %s: i32, w: i64) -> i32; other = IT%d::g(&self, w: i64, %s: &str); });\nforeign_class!(class %s { fn um%d::run(cb: Box<dyn IT%d>) -> i32; });\n" % (i, i, m, i, a, i, a, c, i, i)
        rust = "pub trait IT%d { fn f(&self, a: i32, w: i64) -> i32; fn g(&self, w: i64, s: &str); }\npub mod um%d { use super::*; pub fn run(cb: Box<dyn IT%d>) -> i32 { cb.g(-5, \"t\"); cb.f(7, 9) } }\n" % (i, i, i)
        if lang == "java":
            call = 'S2.chk("%d", %s.run(new I%d() { public int %s(int a, long b) { return (int) (a * 100 + b); } public void other(long b, String t) { sb = b + t; } }) + sb, "709-5t");' % (i, c, i, m)
        else:
            call = 'struct X%d : I%d { int32_t %s(int32_t a, int64_t b) const noexcept override { return int32_t(a * 100 + b); } void other(int64_t b, std::string_view t) const noexcept override { sb = std::to_string(b) + std::string(t); } }; chk("%d", tx(fg::%s::run(std::unique_ptr<I%d>(new X%d))) + sb, "709-5t");' % (i, i, m, i, c, i, i)
        return desc, rust, call
    st, me = (name, "m1") if pos == "static" else ("f1", name) if pos == "method" else ("f1", "m1")
    a = name if pos == "arg" else "q"
    desc = "foreign_class!(class {c} {{ self_type {T}; constructor {T}::new({a}: i32) -> {T}; fn {T}::f1(b: i64, {a}: i32) -> i32; alias {st}; fn {T}::f2({a}: &str, b: i64) -> String; fn {T}::f3({a}: NObT) -> i32; fn {T}::m1(&self, {a}: i32) -> Result<i32, Er>; alias {me}; fn {T}::m2(&mut self, {a}: &NObT, w: Option<i32>) -> Option<i32>; fn {T}::m3(&self, {a}: NEn) -> NEn; }});\n".format(c=c, T=T, a=a, st=st, me=me)
    if st == "f1":
        desc = desc.replace(" alias f1;", "")
    if me == "m1":
        desc = desc.replace(" alias m1;", "")
    rust = "pub struct {T}(i32); impl {T} {{ pub fn new(k: i32) -> {T} {{ {T}(k) }} pub fn f1(b: i64, a: i32) -> i32 {{ b as i32 * 100 + a }} pub fn f2(a: &str, b: i64) -> String {{ format!(\"{{}}{{}}\", a, b) }} pub fn f3(a: NObT) -> i32 {{ a.0 }} pub fn m1(&self, a: i32) -> Result<i32, Er> {{ if a > 0 {{ Ok(self.0 * 100 + a) }} else {{ Err(er()) }} }} pub fn m2(&mut self, a: &NObT, w: Option<i32>) -> Option<i32> {{ w.map(|x| x + a.0 + self.0) }} pub fn m3(&self, a: NEn) -> NEn {{ if a == NEn::P {{ NEn::Q }} else {{ NEn::P }} }} }}\n".format(T=T)
    if lang == "java":
        call = '{{ {c} u = new {c}(5); String g = {c}.{st}(3, 4) + "," + {c}.f2("k", 6) + "," + {c}.f3(new NOb(8)) + "," + u.{me}(2) + "," + u.m2(new NOb(1), 10).getAsInt() + "," + u.m3(NEn.Aa); try {{ u.{me}(-1); g += "no"; }} catch (Exception ex) {{ g += ex.getMessage(); }} S2.chk("{i}", g, "304,k6,8,502,16,Bberr"); }}'.format(c=c, st=st, me=me, i=i)
    elif lang == "cpp":
        call = '{{ fg::{c} u(5); std::string g = tx(fg::{c}::{st}(3, 4)) + "," + fg::{c}::f2("k", 6).to_std_string() + "," + tx(fg::{c}::f3(NOb(8))) + "," + tx(std::get<int32_t>(u.{me}(2))) + "," + tx(*u.m2(NOb(1), 10)) + "," + (u.m3(NEn::Aa) == NEn::Bb ? "Bb" : "?"); g += std::get<RustString>(u.{me}(-1)).to_std_string(); chk("{i}", g, "304,k6,8,502,16,Bberr"); }}'.format(c=c, st=st, me=me, i=i)
    else:
        call = 'u = fgmod.{c}({a}=5); g = "%s,%s,%s,%s,%s,%s" % (fgmod.{c}.{st}(b=3, {a}=4), fgmod.{c}.f2({a}="k", b=6), fgmod.{c}.f3({a}=fgmod.NOb(8)), u.{me}({a}=2), u.m2({a}=fgmod.NOb(1), w=10), "Bb" if u.m3({a}=fgmod.NEn.Aa) == fgmod.NEn.Bb else "?")\ntry: u.{me}(-1); g += "no"\nexcept fgmod.Error as ex: g += str(ex)\nchk("{i}", g, "304,k6,8,502,16,Bberr")'.format(c=c, st=st, me=me, i=i, a=a)
        if lang == "python":
            call = "def run%d():\n%s\nrun%d()" % (i, "".join("    %s\n" % l for l in call.split("\n")), i)
    return desc, rust, call


def names_run(r, lang, units, tag=""):
    """units: [(number, name, position)] -> problem or list of wrong ones"""
    d = os.path.join(r.work, "names_%s%s" % (lang, tag))
    us = [nunit(lang, n, p, i) for i, n, p in units]
    er = {"python": "#[derive(Debug)] pub struct ErT; impl std::fmt::Display for ErT { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(\"err\") } } impl std::error::Error for ErT {} pub fn er() -> ErT { ErT }\n"}.get(lang, "pub fn er() -> String { \"err\".to_string() }\n")
    desc = (NDESC + "".join(u[0] for u in us)).replace("Result<i32, Er>", "Result<i32, ErT>" if lang == "python" else "Result<i32, String>")
    rust = (NRUST + er + "".join(u[1] for u in us)).replace("Result<i32, Er>", "Result<i32, ErT>" if lang == "python" else "Result<i32, String>")
    if lang == "java":
        body = "".join("  static void c%d() throws Throwable { %s }\n" % (k, u[2]) for k, u in enumerate(us))
        main = "package org.fg;\nimport java.util.*;\npublic class Main {\n  static String sb = \"\";\n  static class S2 { static int n; static void chk(String w, String got, String want) { ++n; if (!got.equals(want)) System.out.println(\"VIOL\\t\" + w + \"\\tgives \" + got + \", expected \" + want); } }\n%s\n  public static void main(String[] a) throws Throwable { System.load(System.getProperty(\"fg.lib\")); %s System.out.println(\"DONE\\t\" + S2.n); System.out.flush(); Runtime.getRuntime().halt(0); }\n}\n" % (body, " ".join("c%d();" % k for k in range(len(us))))
        b = jkit.build(r, d, desc, rust, {"org/fg/Main.java": main})
        p = None if b.problem else run(b.cmd("org.fg.Main"), timeout=200)
    elif lang == "cpp":
        cl = sorted({(n if p == "class" else "U%d" % i) for i, n, p in units} | {"I%d" % i for i, n, p in units if p.startswith("cb")})
        os.makedirs(d, exist_ok=True)
        main = "".join('#include "%s.hpp"\n' % c for c in cl) + "#include \"NOb.hpp\"\n#include \"NEn.hpp\"\n#include <cstdio>\n#include <memory>\n#include <string>\nusing namespace fg;\nstatic std::string sb; static int n_;\ntemplate<class T> static std::string tx(T x) { return std::to_string(x); }\nstatic void chk(const char *w, const std::string &g, const std::string &want) { ++n_; if (g != want) printf(\"VIOL\\t%%s\\tgives %%s, expected %%s\\n\", w, g.c_str(), want.c_str()); }\n%s\nint main() { %s printf(\"DONE\\t%%d\\n\", n_); }\n" % ("".join("static void c%d() { %s }\n" % (k, u[2]) for k, u in enumerate(us)), " ".join("c%d();" % k for k in range(len(us))))
        b = cppkit.build(r, d, desc, rust, write(d + "/main.cpp", main), opt="-O0")
        p = None if b.problem else run([b.exe], timeout=100, env=env(**cppkit.SAN_ENV))
    else:
        b = pykit.build(r, d, desc, rust)
        main = "import fgmod\nn = 0\ndef chk(w, got, want):\n    global n; n += 1\n    if got != want: print('VIOL\\t%s\\tgives %s, expected %s' % (w, got, want))\n" + "\n".join(u[2] for u in us) + "\nprint('DONE\\t%d' % n)\n"
        p = None if b.problem else b.run(write(d + "/t.py", main))
    shutil.rmtree(d, ignore_errors=True)
    if b.problem:
        return b, None
    return b, p


def names_units(lang, skip):
    k = 0
    for n in NAMES:
        for pos in POS:
            k += 1
            if lang == "python" and pos.startswith("cb") or "%s/%s/%s" % (lang, pos, n) in skip:
                continue
            yield k, n, pos


def check_names(r, full):
    skip = json.load(open(os.path.join(VERIF, "mc/specs/p15_skip.json")))
    jobs = []
    for lang in ("java", "cpp", "python"):
        us = list(names_units(lang, skip))
        groups, seen = [[] for _ in range(8 if lang == "cpp" else 4)], {}
        for k, u in enumerate(us):
            if u[2] == "class":  # names that differ only in case or underscores go to different programs
                c = u[1].replace("_", "").lower()
                seen[c] = seen.get(c, -1) + 1
                groups[seen[c]].append(u)
            else:
                groups[k % len(groups)].append(u)
        jobs += [(lang, us, str(g)) for g, us in enumerate(groups)]
    for (lang, us, g), (b, p) in zip(jobs, pmap(lambda j: names_run(r, *j), jobs)):
        if b.problem:
            r.violation("names/%s/%s" % (lang, b.kind), "%s: user-chosen names: %s" % (lang, b.problem))
            continue
        by, done = {str(i): (n, pos) for i, n, pos in us}, False
        for l in p.stdout.splitlines():
            f = l.split("\t")
            if f[0] == "VIOL":
                n, pos = by[f[1]]
                r.violation("names/%s/%s/%s" % (lang, pos, n), "%s: %s called %s: %s" % (lang, pos, n, f[2]))
            elif f[0] == "DONE":
                done = True
                r.traces += int(f[1])
        if not done:
            r.violation("names/%s/crash" % lang, "%s: the program died (%d): %s" % (lang, p.returncode, (p.stdout[-500:] + p.stderr)[-1500:]))
        for i, n, pos in us:
            r.state(("name", lang, n, pos))
            r.transitions += 1


def check(r):
    for f in (check_java, check_cpp, check_python, check_names):
        f(r, r.thorough)


if __name__ == "__main__":
    os.environ.setdefault("VERIF_TIER", "quick")
    r = Report("P15survey")
    build_driver()
    jobs = [(l, [u]) for l in ("java", "cpp", "python") for u in names_units(l, ())]
    only = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else None
    jobs = [(l, us) for l, us in jobs if only is None or "%s/%s/%s" % (l, us[0][2], us[0][1]) in only]
    skip = {}

    def one(j):
        lang, us = j
        b, p = names_run(r, lang, us, "_%d" % us[0][0])
        if b.problem:
            return (b.kind, b.problem[:500])
        if "VIOL" in p.stdout or "DONE" not in p.stdout:
            return ("run", p.stdout[-300:] + p.stderr[-300:])
    for (lang, us), x in zip(jobs, pmap(one, jobs)):
        if x:
            skip["%s/%s/%s" % (lang, us[0][2], us[0][1])] = x
    json.dump(skip, open("/tmp/p15_skip.json", "w"), indent=0)
