"""Descriptions used by the generator-level checks: the repository's own ones plus feature-rich
ones of ours.  Every entry: name, lang, cfg (driver job fields), srcs [(file name, text)]."""
import glob, os
from common import REPO, read


def repo_entries():
    out = []
    base = os.path.join(REPO, "macroslib/tests/expectations")
    for f in sorted(glob.glob(base + "/*.rs")):
        n = os.path.basename(f)[:-3]
        if os.path.exists(base + "/%s.cpp" % n):
            out.append(dict(name="exp-cpp-" + n, lang="cpp", cfg={"ns": "org_examples"}, srcs=[(n + ".rs", read(f))]))
        if os.path.exists(base + "/%s.java" % n):
            out.append(dict(name="exp-java-" + n, lang="java",
                            cfg={"package": "org.example", "null_pkg": "android.support.annotation"},
                            srcs=[(n + ".rs", read(f))]))
    def add(name, lang, cfg, files, **kw):
        if all(os.path.exists(os.path.join(REPO, f)) for f in files):
            out.append(dict(name=name, lang=lang, cfg=cfg,
                            srcs=[(os.path.basename(f), read(os.path.join(REPO, f))) for f in files], **kw))
    add("cpp_tests-boost", "cpp", {"ns": "rust", "boost": True}, ["cpp_tests/src/cpp_glue.rs.in"])
    add("cpp_tests-17", "cpp", {"ns": "rust"}, ["cpp_tests/src/cpp_glue.rs.in"])
    ch = os.path.join(REPO, "jni_tests/src/chrono-include.rs")
    if os.path.exists(ch):
        add("jni_tests", "java", {"package": "com.example.rust", "fence": "std",
                                  "merge": [{"id": "chrono_support", "code": read(ch)}],
                                  "callbacks": [{"kind": "class", "attr": "PartialEq", "append": "// eq {arg}\n"}]},
            ["jni_tests/src/java_glue.rs.in", "jni_tests/src/test_optional.rs.in"])
    add("python_tests", "python", {"module": "flapigen_test_python"}, ["python_tests/src/glue.rs.in"])
    return out


def many_classes(lang, n=9):
    """Many classes / enums / interfaces that refer to each other, so that every collection the
    generator keeps holds several entries."""
    s = "use std::{rc::Rc, cell::RefCell, sync::{Arc, Mutex}};\n"
    for i in range(n):
        s += "foreign_enum!(enum En%d { A%d = En%d::A, B%d = En%d::B, C%d = En%d::C, });\n" % ((i,) * 7)
    s += "foreign_class!(class ClBase { self_type StBase; constructor StBase::new() -> StBase; });\n"
    if lang != "python":
        for i in range(n):
            s += ("foreign_callback!(callback Cb%d { self_type Tr%d; onA = Tr%d::on_a(&self, x: i32, s: &str); "
                  "onB = Tr%d::on_b(&self, e: En%d, o: StBase); onC = Tr%d::on_c(&self) -> i32; });\n") % (i, i, i, i, i, i)
    for i in range(n):
        j, k = (i * 4 + 1) % n, (i * 7 + 3) % n
        derive = "#[derive(Clone)]\n" if lang != "cpp" or i % 3 == 0 else ""
        s += "foreign_class!(\n%sclass Cl%d {\n  self_type St%d;\n  constructor St%d::new(a: i32, b: &str) -> St%d;\n" % (
            derive, i, i, i, i)
        if derive:
            s += "  fn St%d::clone(&self) -> St%d;\n" % (i, i)
        s += "  fn St%d::m1(&self, e: En%d) -> En%d;\n" % (i, j, k)
        s += "  fn St%d::m2(&mut self, o: &St%d) -> bool;\n" % (i, k)
        if lang == "cpp":
            s += "  fn St%d::v1(&self) -> Vec<St%d>;\n  fn St%d::v2(&self, v: Vec<St%d>) -> Result<St%d, String>;\n" % (i, j, i, k, j)
            s += "  fn St%d::o1(&self, o: Option<&St%d>) -> Option<&St%d>;\n" % (i, k, j)
            s += "  fn St%d::t1(&self) -> (i32, String);\n  fn St%d::s1(&self) -> &[St%d];\n" % (i, i, k)
            s += "  fn St%d::cb(&mut self, c: Box<dyn Tr%d>);\n" % (i, j)
            s += "  fn St%d::oe(&self) -> Option<En%d>;\n  fn St%d::re(&self) -> Result<Vec<u8>, En%d>;\n" % (i, j, i, k)
        elif lang == "java":
            s += "  fn St%d::v1(&self) -> Vec<St%d>;\n  fn St%d::v2(&self, v: Vec<St%d>) -> Result<St%d, String>;\n" % (i, j, i, k, j)
            s += "  fn St%d::o1(&self, o: Option<i32>) -> Option<St%d>;\n" % (i, j)
            s += "  fn St%d::o2(&self, o: Option<&str>) -> Option<f64>;\n" % i
            s += "  fn St%d::cb(&mut self, c: Box<dyn Tr%d>);\n" % (i, j)
            s += "  fn St%d::oe(&self) -> Option<En%d>;\n  fn St%d::a1(&self, a: &[i64]) -> Vec<String>;\n" % (i, j, i)
        else:
            s += "  fn St%d::v1(&self, v: Vec<f32>) -> Vec<i64>;\n  fn St%d::t1(&self) -> (i32, String);\n" % (i, i)
            s += "  fn St%d::o1(&self, o: Option<i32>) -> Option<String>;\n" % i
            s += "  fn St%d::r1(&self) -> Result<u8, Er%d>;\n  fn St%d::sl(&self, o: &[St%d]) -> usize;\n" % (i, i, i, k)
        s += "});\n"
    return s


TYPEMAPS = {
    "cpp": r'''
foreign_typemap!(
    ($p:r_type) MyA => i32 { $out = $p.0; };
    ($p:f_type) => "int32_t";
);
foreign_typemap!(
    ($p:r_type) MyB => f64 { $out = $p.0; };
    ($p:f_type) => "double";
    ($p:r_type) MyB <= f64 { $out = MyB($p); };
    ($p:f_type) <= "double";
);
foreign_typemap!(
    ($p:r_type) <T> W1<T> => T { $out = $p.0; };
);
foreign_typemap!(
    define_c_type!(module = "my_c.h"; #[repr(C)] #[derive(Clone, Copy)] struct MyC { a: i32, b: f64 });
    ($p:r_type) MyD => MyC { $out = $p.0; };
    ($p:f_type) => "MyC";
);
foreign_class!(class UseMaps { fn a() -> MyA; fn b(x: MyB) -> MyB; fn c() -> MyD; fn d() -> W1<i32>; });
''',
    "java": r'''
foreign_typemap!(
    ($p:r_type) MyA => jint { $out = $p.0; };
    ($p:f_type) => "int";
);
foreign_typemap!(
    ($p:r_type) MyB => jdouble { $out = $p.0; };
    ($p:f_type) => "double";
    ($p:r_type) MyB <= jdouble { $out = MyB($p); };
    ($p:f_type) <= "double";
);
foreign_typemap!(
    ($p:r_type) <T> W1<T> => T { $out = $p.0; };
);
foreign_class!(class UseMaps { fn a() -> MyA; fn b(x: MyB) -> MyB; fn d() -> W1<i32>; });
''',
}

DOCS = '''
//! crate docs
use std::collections::HashMap;
const X: u8 = 3;
foreign_class!(
    /// Doc one
    /// second line
    #[derive(camelCaseAliases)]
    class DocA {
        self_type SA;
        /// ctor
        constructor SA::new(x_arg: i32) -> SA;
        constructor SA::other(x_arg: &str, y: u8) -> SA;
        /// m docs
        fn SA::some_method(&self, long_name: i64) -> String;
        private fn SA::hidden(&self);
        protected fn SA::prot(&mut self, z: bool);
        fn SA::renamed(&self) -> u32; alias otherName;
        fn inline_one(a: i32) -> i32 { a + 1 }
        fn inline_two(&self, a: i32) -> i32 { this.v + a }
        foreign_code "// verbatim\\n";
    }
);
some_macro!(a b c);
fn user_fn() -> i32 { 5 }
'''


def ambiguous(lang):
    """rules and items with many equally good choices: whatever iterates a hash container shows here"""
    n = 8
    s = ""
    for i in range(n):
        s += "foreign_typemap!(($p:r_type) <T> &W<T> => &M%d<T> { $out = $p.m%d(); };);\n" % (i, i)
        s += "foreign_typemap!(($p:r_type) <T> P<T> => Q%d<T> { $out = $p.q%d(); };);\n" % (i, i)
    for i in range(n):
        s += "foreign_typemap!(($p:r_type) <T> &M%d<T> => &T { $out = $p.e%d(); };);\n" % (i, i)
        s += "foreign_typemap!(($p:r_type) <T> Q%d<T> => T { $out = $p.f%d(); };);\n" % (i, i)
    s += "foreign_class!(class El { self_type El; constructor mk(v: i32) -> W<El>; fn El::get(&self) -> i32; fn El::p(&self) -> P<i64>; fn El::q(&self) -> P<bool>; });\n"
    for i in range(n):
        s += "foreign_enum!(enum E%d { A = E%d::A, B = E%d::B, });\n" % (i, i, i)
    for i in range(n):
        s += "foreign_callback!(callback C%d { self_type C%d; %s });\n" % (i, i, " ".join("m%d = C%d::m%d(&self, a: E%d, b: i64);" % (k, i, k, (i + k) % n) for k in range(n)))
    if lang == "cpp":
        for i in range(n):
            s += "foreign_typemap!(define_c_type!(module = \"my_c%d.h\"; #[repr(C)] #[derive(Clone, Copy)] struct MyC%d { a: i32, b: f64 }); foreign_code!(module = \"my_all.h\"; \"// piece %d\n\"); ($p:r_type) MyD%d => MyC%d { $out = $p.0; }; ($p:f_type, req_modules = [\"\\\"my_c%d.h\\\"\", \"\\\"my_all.h\\\"\"]) => \"MyC%d\" \"$p\";);\n" % ((i % 3,) + (i,) * 4 + (i % 3, i))
        s += "foreign_class!(class Wide { %s });\n" % " ".join("fn a%d(x: E%d, c: Box<dyn C%d>) -> MyD%d; fn b%d(x: (i%d, f%d)) -> Result<Vec<u%d>, String>;" % (i, i, i, i, i, 8 << (i % 4), 32 << (i % 2), 8 << (i % 4)) for i in range(n))
    else:
        s += "foreign_class!(class Wide { %s });\n" % " ".join("fn a%d(x: E%d, c: Box<dyn C%d>) -> Option<E%d>; fn b%d(x: Option<i64>) -> Result<Option<f64>, String>;" % (i, i, i, i, i) for i in range(n))
        s += "foreign_class!(class Over { fn a(x: i64); alias over; fn b(x: bool); alias over; fn c(x: f64, y: i32); alias over; fn d(x: &str); alias over; });\n"
    return s


def own_entries():
    out = []
    cpp_cfgs = [("std", {}), ("boost", {"boost": True}), ("nosep", {"sep": False}), ("fmt", {"rustfmt": True, "remove": True})]
    java_cfgs = [("def", {}), ("ann", {"null_pkg": "a.b", "opt_pkg": "java8.util", "fence": "std"}),
                 ("fmt", {"rustfmt": True, "remove": True, "fence": "3"})]
    for lang, cfgs in (("cpp", cpp_cfgs), ("java", java_cfgs), ("python", [("def", {}), ("fmt", {"rustfmt": True})])):
        docs = DOCS if lang != "python" else DOCS.replace("constructor SA::other(x_arg: &str, y: u8) -> SA;\n", "").replace(
            "protected ", "").replace('foreign_code "// verbatim\\n";', "").replace("private fn SA::hidden(&self);\n", "")
        maps = TYPEMAPS.get(lang, "")
        for tag, cfg in cfgs:
            c = dict(cfg)
            c.setdefault("ns" if lang == "cpp" else "package" if lang == "java" else "module",
                         "a_ns" if lang == "cpp" else "x.y" if lang == "java" else "amod")
            out.append(dict(name="many-%s-%s" % (lang, tag), lang=lang, cfg=c, srcs=[("many.rs", many_classes(lang))]))
            out.append(dict(name="docs-%s-%s" % (lang, tag), lang=lang, cfg=c, srcs=[("docs.rs", docs)]))
            out.append(dict(name="multi-%s-%s" % (lang, tag), lang=lang, cfg=c,
                            srcs=[("a.rs", many_classes(lang, 4)), ("b.rs", docs), ("c.rs", maps or "fn q() {}\n")]))
            if lang != "python":
                out.append(dict(name="ambiguous-%s-%s" % (lang, tag), lang=lang, cfg=c, srcs=[("amb.rs", ambiguous(lang))]))
            if maps:
                out.append(dict(name="maps-%s-%s" % (lang, tag), lang=lang, cfg=c, srcs=[("maps.rs", maps)]))
    return out
