"""Generate + compile + run for the Python back end: the generated Rust code becomes an extension module
(cpython crate from the offline registry, built once), a Python program runs against it."""
import glob, os, sys
from common import *

PY = "/usr/bin/python3"
MOD = "fgmod"


class Built:
    def __init__(self, d, so=None, problem=None, kind=None):
        self.d, self.so, self.problem, self.kind = d, so, problem, kind

    def run(self, script, *args, timeout=600, extra_env=None):
        return run([PY, "-X", "faulthandler", "-B", script] + [str(a) for a in args], timeout=timeout, env=env(PYTHONPATH=self.d + "/py:" + os.path.join(VERIF, "mc"), **(extra_env or {})))


_rlib = {}


def cpython_rlib():
    if "x" not in _rlib:
        e = {"PYTHON_SYS_EXECUTABLE": PY}
        p = cargo_build(os.path.join(VERIF, "pydeps"), extra=["--message-format=json"], extra_env=e)
        if p.returncode:
            raise CheckError("cpython crate: " + p.stderr[-3000:])
        for l in p.stdout.splitlines():
            j = json.loads(l)
            if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "cpython":
                _rlib["x"] = [f for f in j["filenames"] if f.endswith(".rlib")][0]
    return _rlib["x"]


def build(r, d, desc, rust_src, cfg=None, edition="2021", extra=()):
    os.makedirs(d + "/out", exist_ok=True)
    srcs = [write(d + "/desc%d.rs.in" % k, t) for k, t in enumerate([desc] if isinstance(desc, str) else desc)]
    job = dict(lang="python", srcs=srcs, out_rs=d + "/glue.rs", out_dir=d + "/out", module=MOD)
    job.update(cfg or {})
    g = gen(job, d)
    if not g.ok:
        return Built(d, problem="the generator refuses it:\n" + tail_err(g.err), kind="refused")
    lib = cpython_rlib()
    rust_src = "#![recursion_limit = \"4096\"]\n" + rust_src
    src = write(d + "/lib.rs", rust_src + '\ninclude!("glue.rs");\n')
    os.makedirs(d + "/py", exist_ok=True)
    so = d + "/py/%s.so" % MOD
    p = run(["rustc", "--edition", edition, "--crate-type", "cdylib", "--crate-name", MOD, "-C", "debuginfo=0", "-C", "opt-level=0",
             "-C", "debug-assertions=yes", "--cap-lints", "warn", "-A", "warnings", "--extern", "cpython=" + lib, "-L", "dependency=" + os.path.join(TARGET, "debug/deps"),
             "-o", so, src] + list(extra), timeout=800)
    if p.returncode:
        return Built(d, problem="the generated Rust code does not compile:\n" + p.stderr[:3000], kind="rust")
    return Built(d, so)
