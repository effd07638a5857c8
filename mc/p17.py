"""P17: attribute callbacks see every annotated item exactly once.

Exhaustive over {placements of annotations on the slots of a description} x {sets of registered
callbacks} x {what the callbacks do to the text} x {back end}.  The model predicts refusal, or the
multiset of calls per generated module; calls are matched to modules by the text they were given."""
import itertools, os, shutil
from common import *

LEVEL = "model_checking"
ASSUMPTIONS = ["annotations range over two custom names, shared by the three kinds of item",
               "the order in which the callbacks of one item run is left open"]

MSLOTS = ["ctor", "meth", "alias", "static", "inline", "camel"]
SLOTS = ["c1", "c2"] + MSLOTS + ["e1", "e2"]
KINDS = {"c1": "class", "c2": "class", "e1": "enum", "e2": "enum"}
ARGS = {"c1": ["Alpha"], "c2": ["Beta"], "e1": ["Enu"], "e2": ["EnuTwo"],
        "ctor": ["Alpha", "new"], "meth": ["Alpha", "get_it"], "alias": ["Alpha", "otherName"],
        "static": ["Alpha", "make_it"], "inline": ["Alpha", "inl"], "camel": ["Beta", "doIt"]}
MODULE = {"c1": "Alpha", "c2": "Beta", "e1": "Enu", "e2": "EnuTwo", "camel": "Beta"}
for s_ in MSLOTS[:5]:
    MODULE[s_] = "Alpha"


def text(pl):
    def derive(slot, builtin=()):
        l = list(builtin) + list(pl.get(slot, ()))
        return "#[derive(%s)]\n" % ", ".join(l) if l else ""

    def at(slot):
        return "".join("    #[%s]\n" % a for a in pl.get(slot, ()))
    return ("foreign_class!(\n" + derive("c1") + "class Alpha {\n    self_type Alpha;\n"
            + at("ctor") + "    constructor Alpha::new() -> Alpha;\n"
            + at("meth") + "    /// doc\n    fn Alpha::get_it(&self) -> i32;\n"
            + at("alias") + "    fn Alpha::rust_name(&mut self, v: i32); alias otherName;\n"
            + at("static") + "    fn Alpha::make_it(v: i32) -> i32;\n"
            + at("inline") + "    fn inl(&self) -> i32 { this.get_it() }\n"
            + "    foreign_code \"// verbatim\\n\";\n});\n"
            + "foreign_enum!(\n" + derive("e1") + "enum Enu {\n    A = Enu::A,\n    B = Enu::B,\n});\n"
            + "foreign_class!(\n" + derive("c2", ("Clone", "camelCaseAliases")) + "class Beta {\n    self_type Beta;\n    private constructor = empty;\n"
            + at("camel") + "    fn Beta::do_it(&self, a: &Alpha);\n    fn Beta::clone(&self) -> Beta;\n});\n"
            + "foreign_enum!(\n/// doc\n" + derive("e2") + "enum EnuTwo {\n    P = EnuTwo::P,\n});\n")


REGS_ALL = [(k, a) for k in ("class", "method", "enum") for a in "XY"]


def regsets(full):
    if full:
        return [tuple(x for i, x in enumerate(REGS_ALL) if m >> i & 1) for m in range(64)]
    out = [tuple(REGS_ALL)]
    out += [tuple(x for x in REGS_ALL if x != y) for y in REGS_ALL]
    out += [tuple(x for x in REGS_ALL if x[0] == k) for k in ("class", "method", "enum")]
    return out


def check(r):
    base = {}
    for lang in ("cpp", "java"):
        d = os.path.join(r.work, "base-" + lang)
        src = write(d + "/x.rs.in", text({}))
        os.makedirs(d + "/out")
        g = gen(dict(lang=lang, srcs=[src], out_rs=d + "/g.rs", out_dir=d + "/out", ns="fg", package="fg.p"), d)
        if not g.ok:
            raise CheckError("plain description refused: " + g.err[:800])
        files = {f: read(d + "/out/" + f) for f in os.listdir(d + "/out")}
        mods = ["Alpha", "Beta", "Enu", "EnuTwo"]
        if lang == "java":
            b = {m: [m + ".java"] for m in mods}
        else:
            b = {m: [m + ".hpp"] + (["c_%s.h" % m] if m.startswith("Enu") else []) for m in mods}
        base[lang] = (files, b)

    cases = []
    vals = [("X",), ("Y",), ("X", "Y"), ("Y", "X")]
    placements = [({}, True)]
    placements += [({s: v}, True) for s in SLOTS for v in vals]
    placements += [({s: v, t: w}, r.thorough) for s, t in itertools.combinations(SLOTS, 2)
                   for v in (vals if r.thorough else vals[:3]) for w in (vals if r.thorough else vals[:3])]
    if r.thorough:
        placements += [(dict(zip(c, vs)), False) for c in itertools.combinations(SLOTS, 3) for vs in itertools.product(vals[:3], repeat=3)]
        placements += [({s: v for s in SLOTS}, True) for v in vals]
    else:
        placements += [({s: v for s in SLOTS}, False) for v in vals]
    for pl, full in placements:
        for reg in regsets(full):
            for lang in ("cpp", "java"):
                for clear in (False, True):
                    if clear and (len(pl) > 1 or len(reg) < 6):
                        continue
                    cases.append((pl, reg, lang, clear))
    for reg in regsets(True):
        for content in ("both", "classes", "enums"):
            cases.append(({}, reg, "python-" + content, False))

    def batch(ib):
        bi, cs = ib
        d = os.path.join(r.work, "b%d" % bi)
        jobs, metas = [], []
        for i, (pl, reg, lang, clear) in enumerate(cs):
            o = "%s/%d" % (d, i)
            os.makedirs(o + "/out")
            t = text(pl)
            if lang.startswith("python-"):
                cl = "foreign_class!(class Alpha {\n    self_type Alpha;\n    constructor Alpha::new() -> Alpha;\n});\n"
                en = "foreign_enum!(enum Enu {\n    A = Enu::A,\n    B = Enu::B,\n});\n"
                t = {"both": cl + en, "classes": cl, "enums": en}[lang[7:]]
            src = write(o + "/x.rs.in", t)
            jobs.append(dict(lang=lang.split("-")[0], srcs=[src], out_rs=o + "/g.rs", out_dir=o + "/out", ns="fg", package="fg.p", module="fgm",
                             callbacks=[dict(kind=k, attr=a, append="// %s %s {arg}\n" % (k, a), clear=clear and a == "Y") for k, a in reg]))
        gs = gen(jobs, d, timeout=600)
        res = []
        for i, ((pl, reg, lang, clear), g) in enumerate(zip(cs, gs)):
            res.append(judge(base, pl, reg, lang, clear, g, "%s/%d/out" % (d, i)))
        shutil.rmtree(d)
        return res
    n = 60
    batches = [(i, cases[i * n:(i + 1) * n]) for i in range((len(cases) + n - 1) // n)]
    flat = [x for b in pmap(batch, batches) for x in b]
    for (pl, reg, lang, clear), msgs in zip(cases, flat):
        r.transitions += 1
        r.traces += 1
        r.state((sorted(pl.items()), reg, lang, clear))
        for key, msg in msgs:
            r.violation("%s/%s" % (lang, key), msg + "\nannotations %s, registered %s" % (pl, reg), {"annotations": pl, "registered": reg, "lang": lang, "clear": clear, "source": text(pl)})
    r.sample({"annotations": cases[len(cases) // 2][0], "registered": cases[len(cases) // 2][1]})
    r.extra["exhaustive"] = True
    r.extra["placements"] = len(placements)


def judge(base, pl, reg, lang, clear, g, out):
    if lang.startswith("python-"):
        content = lang[7:]
        has_c = any(k in ("class", "method") for k, _ in reg)
        has_e = any(k == "enum" for k, _ in reg)
        refuse = (content != "enums" and has_c) or (content != "classes" and has_e)
        if g.log:
            return [("python-called", "a callback was called: %s" % g.log[0])]
        if g.ok == refuse:
            return [("python-refusal", "expected %s" % ("a refusal" if refuse else "success"))]
        return []
    need = []
    for s, attrs in pl.items():
        for a in attrs:
            need.append((KINDS.get(s, "method"), a, s))
    unknown = [x for x in need if (x[0], x[1]) not in reg]
    if unknown:
        if g.ok:
            return [("unknown-accepted/" + unknown[0][2], "the annotation %s on %s is not registered for a %s, but the run succeeds" % (unknown[0][1], unknown[0][2], unknown[0][0]))]
        return []
    if not g.ok:
        return [("refused", "refused although every annotation is registered: %s" % g.panic)]
    files, mods = base[lang]
    cur, left = {}, {}
    for m, fs in mods.items():
        for f in fs:
            cur[f] = files[f]
            left[f] = sorted((k, a, tuple(ARGS[s])) for k, a, s in need if MODULE[s] == m)
    for e in g.log:
        call = (e["kind"], e["attr"], tuple(e["args"]))
        c = [f for f in cur if cur[f] == e["code"]]
        if not c:
            return [("text/" + "-".join(call[2]), "callback %s got a text that is no generated module (or not what the previous callback left):\n%s" % (call, e["code"][:300]))]
        c = [f for f in c if call in left[f]]
        if not c:
            return [("call/" + "-".join(call[2]), "unexpected call %s" % (call,))]
        left[c[0]].remove(call)
        cur[c[0]] = ("" if clear and call[1] == "Y" else cur[c[0]]) + "// %s %s %s\n" % (call[0], call[1], call[2][0])
    for f in left:
        if left[f]:
            return [("missing/" + f, "never called for %s: %s" % (f, left[f]))]
    have = {f: read(os.path.join(out, f)) for f in os.listdir(out)}
    for f in files:
        want = cur.get(f, files[f])
        if have.get(f) != want:
            return [("written/" + f, "%s is not what the callbacks left" % f)]
    if set(have) != set(files):
        return [("files", "files written: %s" % sorted(have))]
    return []
