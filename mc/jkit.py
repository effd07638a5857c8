"""Generate + compile + run for the Java back end: the generated Rust code becomes a shared library (with a stub of
the log crate), the generated Java code is compiled by javac, the program runs on a real JVM."""
import os, re, glob
from common import *

JAVAC, JAVA = JAVA_HOME + "/bin/javac", JAVA_HOME + "/bin/java"
LOG = r'''
#[macro_export] macro_rules! error { ($($t:tt)*) => { eprintln!("LOG error: {}", format!($($t)*)) } }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { eprintln!("LOG warn: {}", format!($($t)*)) } }
#[macro_export] macro_rules! info { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export] macro_rules! trace { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
'''
HEAD = '#[allow(warnings)] mod jni_c_header { include!("%s"); }\n#[allow(unused_imports)] use crate::jni_c_header::*;\n' % os.path.join(VERIF, "mc/rs/jni_c_header.rs")
PKG = "org.fg"
FLAGS = ["-Xss2m", "-Xmx512m", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-XX:+UseSerialGC", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null"]
ANNO = {"NonNull": "package fg.anno;\nimport java.lang.annotation.*;\n@Retention(RetentionPolicy.RUNTIME) @Target({ElementType.TYPE_USE, ElementType.TYPE_PARAMETER, ElementType.METHOD, ElementType.PARAMETER, ElementType.FIELD})\npublic @interface NonNull {}\n"}
ANNO["Nullable"] = ANNO["NonNull"].replace("NonNull", "Nullable")


class Built:
    def __init__(self, d, cls=None, lib=None, problem=None, kind=None):
        self.d, self.cls, self.lib, self.problem, self.kind = d, cls, lib, problem, kind

    def cmd(self, main, *args, flags=()):
        return [JAVA] + FLAGS + list(flags) + ["-Dfg.lib=" + self.lib, "-cp", self.cls, main] + [str(a) for a in args]


def log_crate(d):
    src = write(d + "/logstub/log.rs", LOG)
    p = run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "log", "-o", d + "/logstub/liblog.rlib", src])
    if p.returncode:
        raise CheckError("log stub: " + p.stderr)
    return d + "/logstub/liblog.rlib"


def rust_so(d, lib_rs, name="glue", extra=(), edition="2021"):
    src = write(os.path.join(d, name + "_lib.rs"), lib_rs)
    out = os.path.join(d, "lib%s.so" % name)
    p = run(["rustc", "--edition", edition, "--crate-type", "cdylib", "--crate-name", name, "-C", "debuginfo=0", "-C", "opt-level=0",
             "-C", "debug-assertions=yes", "--cap-lints", "warn", "-A", "warnings", "--extern", "log=" + log_crate(d), "-o", out, src] + list(extra), timeout=800)
    return out, None if p.returncode == 0 else p.stderr


def javac(d, files, out, cp=()):
    os.makedirs(out, exist_ok=True)
    lst = write(os.path.join(d, "files-%s.txt" % os.path.basename(out)), "\n".join('"%s"' % f for f in files))
    p = run([JAVAC, "-nowarn", "-proc:none", "-Xmaxerrs", "20", "-J-XX:TieredStopAtLevel=1", "-d", out] + (["-cp", ":".join(cp)] if cp else []) + ["@" + lst], timeout=600)
    return None if p.returncode == 0 else p.stdout + p.stderr


def build(r, d, desc, rust_src, java, cfg=None, merge=(), extra=(), rust_only=False, edition="2021", jcp=()):
    """java: {file name: text} of additional sources (package org.fg unless they say otherwise)"""
    pk = d + "/java/" + PKG.replace(".", "/")
    os.makedirs(pk, exist_ok=True)
    srcs = []
    for k, t in enumerate([desc] if isinstance(desc, str) else desc):
        srcs.append(write(d + "/desc%d.rs.in" % k, t))
    job = dict(lang="java", srcs=srcs, out_rs=d + "/glue.rs", out_dir=pk, package=PKG)
    job.update(cfg or {})
    if merge:
        job["merge"] = list(merge)
    g = gen(job, d)
    if not g.ok:
        return Built(d, problem="the generator refuses it:\n" + tail_err(g.err), kind="refused")
    def do_rust():
        return rust_so(d, HEAD + rust_src + '\ninclude!("glue.rs");\n', extra=extra, edition=edition)
    def do_java():
        fs = glob.glob(pk + "/*.java")
        for n, t in java.items():
            fs.append(write(d + "/java/" + n, t))
        if job.get("null_pkg") == "fg.anno":
            for n, t in ANNO.items():
                fs.append(write(d + "/java/fg/anno/%s.java" % n, t))
        return javac(d, fs, d + "/cls", cp=jcp)
    if rust_only:
        lib, err = do_rust()
        jerr = None
    else:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(do_rust), ex.submit(do_java)
            (lib, err), jerr = a.result(), b.result()
    if err:
        return Built(d, problem="the generated Rust code does not compile:\n" + err[:3000], kind="rust")
    if jerr:
        return Built(d, problem="the generated Java code does not compile:\n" + jerr[:3000], kind="java")
    return Built(d, d + "/cls", lib)
