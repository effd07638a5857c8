"""P16: invalid descriptions are refused with the place of the mistake.

Exhaustive exploration of {fault of the menu} x {position of the broken item among valid ones} x
{which input file} x {text in front} x {prior state of the output} x {back end}.  For each case the
real generator runs alone in a process; the oracle checks refusal, the file named, the line, and the
Rust output."""
import os, re, shutil
from common import *

LEVEL = "model_checking"
ASSUMPTIONS = ["the place is judged for faults that concern one item; the menu lists the faults"]

ALL = ("cpp", "java", "python")
CJ = ("cpp", "java")
# (id, back ends, text of the broken item; may have several lines).
M = []
def m(id, langs, text, where="item", intro=""):
    M.append((id, langs, text, (where, intro)))

BASE = "    self_type Bad;\n    constructor Bad::new() -> Bad;\n"
def cls(body, base=BASE, derive=""):
    return "foreign_class!(\n%sclass Bad {\n%s%s\n});" % (derive, base, body)

# --- syntax of classes
m("cls-eof-attr", ALL, "foreign_class!(\n#[derive(Clone)]\n);")
m("cls-eof-alias", ALL, "foreign_class!(\nclass Bad {\n    fn Bad::f();\n    fn Bad::g(); alias\n});")
m("cls-eof-method", ALL, "foreign_class!(\nclass Bad {\n    fn Bad::f();\n    fn\n});")
m("cb-eof", ALL, "foreign_callback!(\ncallback Bad\n);")
m("cb-eof-method", ALL, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a\n});")
m("enum-eof-value", ALL, "foreign_enum!(\nenum Bad {\n    A =\n});")
m("cls-empty-macro", ALL, "foreign_class!();")
m("cls-no-name", ALL, "foreign_class!(\nclass {\n});")
m("cls-kw", ALL, "foreign_class!(\nklass Bad {\n});")
m("cls-no-body", ALL, "foreign_class!(\nclass Bad\n);")
m("cls-missing-semicolon", ALL, cls("    fn Bad::f(&self) -> i32\n    fn Bad::g(&self) -> i32;"))
m("cls-last-missing-semicolon", ALL, cls("    fn Bad::g(&self) -> i32"))
m("cls-ctor-missing-semicolon", ALL, cls("", base="    self_type Bad;\n    constructor Bad::new() -> Bad\n"))
m("cls-selftype-missing-semicolon", ALL, cls("", base="    self_type Bad\n    constructor Bad::new() -> Bad;\n"))
m("cls-unknown-kw", ALL, cls("    function Bad::f(&self);"))
m("cls-unknown-access", ALL, cls("    hidden fn Bad::f(&self);"))
m("cls-bad-arrow", ALL, cls("    fn Bad::f(&self) => i32;"))
m("cls-bad-arg", ALL, cls("    fn Bad::f(&self, a: );"))
m("cls-bad-arg2", ALL, cls("    fn Bad::f(&self, a b);"))
m("cls-no-parens", ALL, cls("    fn Bad::f;"))
m("cls-bad-path", ALL, cls("    fn Bad::(&self);"))
m("cls-dup-arg", ALL, cls("    fn Bad::f(&self, a: i32, a: i32);"))
m("cls-dup-arg-static", ALL, cls("    fn Bad::f(a: i32, b: u8, a: i32);"))
m("cls-ctor-self", ALL, cls("    constructor Bad::with(&self) -> Bad;"))
m("cls-ctor-noret", ALL, cls("    constructor Bad::with(a: i32);"))
m("cls-ctor-mismatch", ALL, cls("    constructor Bad::with(a: i32) -> Other;"))
m("cls-method-noself", ALL, cls("    method Bad::f(a: i32);"))
m("cls-method-noargs", ALL, cls("    method Bad::f();"))
m("cls-static-self", ALL, cls("    static_method Bad::f(&self);"))
m("cls-bad-self", ALL, cls("    method Bad::f(self: &Foo);"))
m("cls-self-value", CJ, cls("    fn Bad::f(self) -> i32;"))
m("cls-self-mutvalue", CJ, cls("    fn Bad::f(mut self);"))
m("cls-alias-ctor", ALL, cls("    constructor Bad::with(a: i32) -> Bad; alias other;"))
m("cls-alias-inline", ALL, cls("    fn f(a: i32) -> i32 { a } alias other;"))
m("cls-alias-noname", ALL, cls("    fn Bad::f(&self); alias ;"))
m("cls-alias-nosemi", ALL, cls("    fn Bad::f(&self); alias q\n    fn Bad::g(&self);"))
m("cls-inline-unnamed", ALL, cls("    fn f(_: i32) -> i32 { 1 }"))
m("cls-public-dummy", ALL, cls("    fn Bad::f(&self);", base="    self_type Bad;\n    constructor = empty;\n"))
m("cls-dummy-noself", ALL, cls("", base="    private constructor = empty;\n"))
m("cls-dummy-notempty", ALL, cls("    fn Bad::f(&self);", base="    self_type Bad;\n    private constructor = full;\n"))
m("cls-method-dummy", ALL, cls("    private fn = empty;"))
m("cls-self-noctor", ALL, cls("", base="    self_type Bad;\n"))
m("cls-self-noctor-method", ALL, cls("    fn Bad::f(&self);", base="    self_type Bad;\n"))
m("cls-ctor-noself", ALL, cls("", base="    constructor Bad::new() -> Bad;\n"))
m("cls-methods-noself", ALL, cls("    fn Bad::f(&self) -> i32;", base=""))
m("cls-copy-noclone", CJ, cls("    fn Bad::f(&self);", derive="#[derive(Copy)]\n"))
m("cls-unknown-derive", CJ, cls("    fn Bad::f(&self);", derive="#[derive(NoSuchThing)]\n"))
m("cls-unknown-attr", ALL, cls("    fn Bad::f(&self);", derive="#[nosuch]\n"))
m("cls-unknown-method-attr", CJ, cls("    #[nosuch]\n    fn Bad::f(&self);"))
m("cls-smart-notptr", CJ, cls("    fn Bad::f(&self);", derive="#[derive(SmartPtrCopy)]\n"))
m("cls-two-bodies", ALL, "foreign_class!(class Bad {\n    fn f();\n} {\n});")
m("cls-trailing", ALL, "foreign_class!(class Bad {\n    fn f();\n}\n extra);")
m("cls-foreign-code-nostr", ALL, cls("    foreign_code 17;"))
m("cls-two-classes", ALL, "foreign_class!(class Bad {\n    fn f();\n}\nclass Bad2 {\n    fn g();\n});")
# --- unknown types
m("ty-unknown-arg", ALL, cls("    fn Bad::f(&self, a: NoSuchType);"))
m("ty-unknown-ret", ALL, cls("    fn Bad::f(&self) -> NoSuchType;"))
m("ty-unknown-ref-arg", ALL, cls("    fn Bad::f(&self, a: &NoSuchType);"))
m("ty-unknown-ret-opt", ALL, cls("    fn Bad::f(&self) -> Option<NoSuchType>;"))
m("ty-unknown-ret-res", ALL, cls("    fn Bad::f(&self) -> Result<NoSuchType, String>;"))
m("ty-unknown-ret-vec", ALL, cls("    fn Bad::f(&self) -> Vec<NoSuchType>;"))
m("ty-unknown-arg-vec", ALL, cls("    fn Bad::f(&self, a: Vec<NoSuchType>);"))
m("ty-unknown-static", ALL, cls("    fn Bad::g(a: i32,\n        b: NoSuchType) -> i32;"))
m("ty-unknown-ctor-arg", ALL, cls("    constructor Bad::with(a: NoSuchType) -> Bad;"))
m("ty-fn-ptr", ALL, cls("    fn Bad::f(&self, a: fn(i32) -> i32);"))
m("ty-dyn", ALL, cls("    fn Bad::f(&self, a: Box<dyn NoSuchTrait>);"))
m("ty-later-multiline", ALL, cls("    fn Bad::a(&self) -> i32;\n    // a comment: fn x(y: NoSuchType)\n    fn Bad::f(&self, v: i64) -> u8;\n    fn Bad::z(&self) -> NoSuchType;"))
m("ty-i128", CJ, cls("    fn Bad::f(&self, a: i128);"))
m("arg-this", CJ, cls("    fn Bad::f(&self, this: i32);"))
# types with a conversion in one direction only, properly used by an earlier item
CBOK = "foreign_callback!(callback CbOk { self_type CbOk; on = CbOk::on(&self, a: i32); });\n"
m("oneway-cb-ret", CJ, cls("    fn Bad::f(&self) -> Box<dyn CbOk>;"), intro=CBOK + "foreign_class!(class Uses { fn m::f(a: Box<dyn CbOk>) -> i32; });")
m("oneway-cb-arg-of-cb", CJ, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self,\n  x: Box<dyn CbOk>);\n});", intro=CBOK + "foreign_class!(class Uses { fn m::f(a: Box<dyn CbOk>) -> i32; });")
m("oneway-vecstring-arg", ("java",), cls("    fn Bad::f(&self, a: Vec<String>);"), intro="foreign_class!(class Uses { fn m::f() -> Vec<String>; });")
m("oneway-string-cb-ret", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> Vec<String>;\n});", intro="foreign_class!(class Uses { fn m::f() -> Vec<String>; });")
USES = "foreign_class!(class Uses { self_type Uses; constructor Uses::new() -> Uses; fn Uses::f(a: i32) -> String; fn Uses::g(a: &str) -> Vec<i32>; fn Uses::h() -> Option<i32>; fn Uses::i() -> Result<i32, String>; fn Uses::j() -> SystemTime; fn Uses::k() -> Option<String>; });"
m("java-cb-ret-0", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> String;\n});", intro=USES)
m("java-cb-ret-1", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> &'static str;\n});", intro=USES)
m("java-cb-ret-2", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> Option<i32>;\n});", intro=USES)
m("java-cb-ret-3", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> Option<String>;\n});", intro=USES)
m("java-cb-ret-4", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> Vec<i32>;\n});", intro=USES)
m("java-cb-ret-5", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> Result<i32, String>;\n});", intro=USES)
m("java-cb-ret-6", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> SystemTime;\n});", intro=USES)
m("java-cb-ret-7", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> (i32, i32);\n});", intro=USES)
m("java-cb-ret-8", ("java",), "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self) -> Uses;\n});", intro=USES)
m("oneway-mutex-ret", CJ, cls("    fn Bad::f(&self) -> MutexGuard<Uses>;"), intro="foreign_class!(class Uses { self_type Uses; constructor Uses::new() -> Arc<Mutex<Uses>>; fn Uses::f(&self) -> Arc<Mutex<Uses>>; fn Uses::g(a: Arc<Mutex<Uses>>); });")
m("oneway-user-arg", ("cpp",), cls("    fn Bad::f(&self, a: OneWay);"), intro="foreign_typemap!(\n    ($p:r_type) OneWay => i32 { $out = $p.0; };\n    ($p:f_type) => \"OwCpp\" \"OwCpp{$p}\";\n);\nforeign_class!(class Uses { fn m::f() -> OneWay; });")
m("oneway-user-ret", ("cpp",), cls("    fn Bad::f(&self) -> OneWay;"), intro="foreign_typemap!(\n    ($p:r_type) OneWay <= i32 { $out = OneWay($p); };\n    ($p:f_type) <= \"OwCpp\" \"$p.get()\";\n);\nforeign_class!(class Uses { fn m::f(a: OneWay); });")
# --- enums
m("enum-empty-macro", ALL, "foreign_enum!();")
m("enum-kw", ALL, "foreign_enum!(\nclass Bad {\n    A = Bad::A,\n});")
m("enum-no-comma", ALL, "foreign_enum!(\nenum Bad {\n    A = Bad::A\n    B = Bad::B\n});")
m("enum-bad-value", ALL, "foreign_enum!(\nenum Bad {\n    A = ,\n});")
m("enum-number", ALL, "foreign_enum!(\nenum Bad {\n    A = 1,\n});")
m("enum-no-body", ALL, "foreign_enum!(\nenum Bad\n);")
m("enum-unknown-derive", CJ, "foreign_enum!(\n#[derive(NoSuchThing)]\nenum Bad {\n    A = Bad::A,\n});")
m("enum-trailing", ALL, "foreign_enum!(\nenum Bad {\n    A = Bad::A,\n} more);")
# --- callbacks
m("cb-empty-macro", ALL, "foreign_callback!();")
m("cb-kw", ALL, "foreign_callback!(\nclass Bad {\n    self_type Bad;\n    a = Bad::a(&self);\n});")
m("cb-no-self-type", ALL, "foreign_callback!(\ncallback Bad {\n    a = Bad::a(&self);\n});")
m("cb-no-self", ALL, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(x: i32);\n});")
m("cb-no-args", ALL, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a();\n});")
m("cb-no-eq", ALL, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a Bad::a(&self);\n});")
m("cb-no-semi", ALL, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self)\n});")
m("cb-bad-trait", ALL, "foreign_callback!(\ncallback Bad {\n    self_type Bad + Clone;\n    a = Bad::a(&self);\n});")
m("cb-unknown-arg", CJ, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self, x: NoSuchType);\n});")
m("cb-unknown-ret", CJ, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    b = Bad::b(&self, y: i32);\n    a = Bad::a(&self) -> NoSuchType;\n});")
m("cb-dup-arg", ALL, "foreign_callback!(\ncallback Bad {\n    self_type Bad;\n    a = Bad::a(&self, x: i32, x: i32);\n});")
# --- type maps
m("tm-eof", CJ, "foreign_typemap!(($p:r_type) MyT\n);")
m("tm-empty-macro", CJ, "foreign_typemap!();")
m("tm-garbage", CJ, "foreign_typemap!(\n   what is this\n);")
m("tm-no-arrow", CJ, "foreign_typemap!(\n    ($p:r_type) MyT i32;\n);")
m("tm-no-code", CJ, "foreign_typemap!(\n    ($p:r_type) MyT => i32 { 5 };\n);")
m("tm-unknown-var", CJ, "foreign_typemap!(\n    ($p:r_type) MyT => i32 { $out = $q; };\n);")
m("tm-bad-kind", CJ, "foreign_typemap!(\n    ($p:z_type) MyT => i32 { $out = $p; };\n);")
m("tm-no-semi", CJ, "foreign_typemap!(\n    ($p:r_type) MyT => i32 { $out = $p; }\n    ($p:f_type) => \"int\"\n);")
m("tm-generic-undeclared", CJ, "foreign_typemap!(\n    (<T> $p:r_type) W => T { $out = $p; };\n);")
m("tm-cond-unknown", CJ, "foreign_typemap!(\n    ($p:r_type) MyT => i32 { $out = $p; };\n    ($p:f_type, option = \"NoSuchOption\") => \"int\";\n);")
m("tm-ctype-java", ("java",), "foreign_typemap!(\n    define_c_type!(module = \"x.h\"; #[repr(C)] struct Q { a: i32 });\n);")
# --- Rust level
m("rs-unbalanced-close", ALL, "fn broken() {\n    let x = (1;\n}", "file")
m("rs-syntax", ALL, "fn broken( {\n}", "file")
m("rs-bad-item", ALL, "pub struct 5;", "item")
m("rs-stray", ALL, "let x = 5;", "item")
m("rs-unterminated-str", ALL, "const X: &str = \"abc;", "file")
m("rs-lone-brace", ALL, "}", "file")
m("foreign-semicolon", ALL, "foreign_class!(class Bad {\n    fn f();\n})\n", "rest")

PREFIXES = {
    "plain": "",
    "commented": "// first line\n/* block\n   comment over\n   lines */\n//! not: foreign_class!(class X {\n\n\n",
    "unicode": "/// \u00e4\u00f6\u00fc \u4f60\u597d \U0001F600\nconst S: &str = \"multi\nline \u00e9 \\\n  string\";\nconst R: &str = r#\"\n\"quoted\"\n\"#;\n",
}
FILLER = {
    "cpp": ["foreign_class!(class Ok%d {\n    self_type Ok%d;\n    constructor Ok%d::new(a: i32) -> Ok%d;\n    fn Ok%d::f(&self) -> i32;\n});\n",
            "foreign_enum!(\n    enum En%d {\n        A = En%d::A,\n        B = En%d::B,\n    }\n);\n",
            "fn user_function_%d() -> i32 {\n    17\n}\n"],
}
FILLER["java"] = FILLER["python"] = FILLER["cpp"]


def filler(lang, k):
    t = FILLER[lang][k % 3]
    return t.replace("%d", str(k))


def build(lang, item, pos, npos, prefix, intro=""):
    """one file; returns text and the line range of the broken item"""
    text = PREFIXES[prefix] + (intro and intro + "\n")
    start = end = None
    for k in range(npos):
        if k == pos:
            start = text.count("\n") + 1
            text += item
            end = text.count("\n") + 1
            text += "\n"
        else:
            text += filler(lang, k)
    return text, start, end, text.count("\n") + 1


def check(r):
    cases = []
    # sanity of the surroundings: everything around the fault is accepted
    for lang in ALL:
        for pre in PREFIXES:
            cases.append(("ok", lang, None, 0, 3, pre, 0, 1, "absent"))
    for id, langs, item, (where, intro) in M:
        for lang in langs:
            for pos, npos in ((0, 1), (0, 3), (1, 3), (2, 3)) if not r.thorough else [(p, n) for n in (1, 2, 3, 4) for p in range(n)]:
                for pre in (PREFIXES if (pos, npos) in ((2, 3), (0, 1)) or r.thorough else ["plain"]):
                    files = [(0, 1)]
                    if pos == 1 or r.thorough:
                        files += [(0, 2), (1, 2), (2, 3)]
                    for fi, nf in files:
                        for prior in (("absent", "present") if r.thorough or (pos + fi) % 2 else ("present",)):
                            cases.append((id, lang, (item, where, intro), pos, npos, pre, fi, nf, prior))
    # every introduction is accepted without the broken item
    for id, langs, item, (where, intro) in M:
        if intro:
            for lang in langs:
                cases.append(("ok", lang, None, 0, 3, "plain", 0, 1, intro))
    r.extra["faults"] = len(M)

    def do(ic):
        i, (id, lang, iw, pos, npos, pre, fi, nf, prior) = ic
        d = os.path.join(r.work, "c%d" % i)
        os.makedirs(d + "/out")
        srcs = []
        rng = None
        for k in range(nf):
            name = "part_%d.rs.in" % k
            if iw and k == fi:
                text, s, e, total = build(lang, iw[0], pos, npos, pre, iw[2] if fi == 0 else "")
                rng = (s, e) if iw[1] == "item" else (s, total) if iw[1] == "rest" else (1, total)
            else:
                intro = "" if k else iw[2] if iw else prior if prior != "absent" else ""
                text = PREFIXES[pre] + (intro and intro + "\n") + "".join(filler(lang, 10 * (k + 1) + q) for q in range(3))
            srcs.append(write(os.path.join(d, name), text))
        out = os.path.join(d, "glue.rs")
        old = "// previous output\n"
        if prior == "present":
            write(out, old)
        job = {"lang": lang, "srcs": srcs, "out_rs": out, "out_dir": d + "/out", "ns": "fg", "package": "fg.p", "module": "fgm", "crate": "mycrate"}
        g = gen(job, d, tag="x")
        res = []
        if iw is None:
            if not g.ok:
                raise CheckError("the valid surroundings are refused (%s, %s, %s): %s" % (lang, pre, prior, g.err[:900]))
            shutil.rmtree(d)
            return res
        if g.ok:
            res.append(("accepted", "the run succeeds", None))
        else:
            cur = read(out) if os.path.exists(out) else None
            if cur != (old if prior == "present" else None):
                res.append(("output-touched", "refused, but the Rust output file %s" % ("was rewritten" if cur is not None and prior == "present" else "was created" if cur is not None else "is gone"), None))
            bad = srcs[fi]
            locs = re.findall(r"^At mycrate: (.*):(\d+):(\d+)$", g.err, re.M)
            if bad not in g.err:
                res.append(("file-not-named", "the error stream does not name %s:\n%s" % (os.path.basename(bad), g.err[:600]), None))
            elif not locs:
                res.append(("no-place", "no place is reported:\n%s" % g.err[:600], None))
            else:
                f, ln, _ = locs[0]
                if f != bad:
                    res.append(("wrong-file", "reported file %s, the mistake is in %s" % (f, bad), None))
                elif not rng[0] <= int(ln) <= rng[1]:
                    res.append(("wrong-line", "reported line %s, the item is at lines %d-%d:\n%s" % (ln, rng[0], rng[1], g.err[:500]), None))
        if res:
            res = [(k, m_ + "\n" + read(srcs[fi])[-700:], read(srcs[fi])) for k, m_, _ in res]
        shutil.rmtree(d)
        return res
    n = 0
    for c, res in zip(cases, pmap(do, list(enumerate(cases)))):
        id, lang, iw, pos, npos, pre, fi, nf, prior = c
        r.transitions += 1
        r.traces += 1
        r.state((id, lang, pos, npos, pre, fi, nf, prior))
        for kind, msg, text in res:
            r.violation("%s/%s/%s" % (id, lang, kind), "item %d of %d, file %d of %d, %s: %s" % (pos + 1, npos, fi + 1, nf, pre, msg),
                        {"case": c[:2] + c[3:], "source": text})
    r.sample({"fault": cases[len(cases) // 2][0], "lang": cases[len(cases) // 2][1], "position": cases[len(cases) // 2][3:9]})
    r.extra["exhaustive"] = True
