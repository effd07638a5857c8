"""Generate + compile + run for the C++ back end."""
import os, re
from common import *

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


class Built:
    def __init__(self, exe=None, problem=None, kind=None):
        self.exe, self.problem, self.kind = exe, problem, kind


def rust_lib(d, lib_rs, name="glue", extra=()):
    """lib_rs is the text of the crate root; returns (path of the static library, stderr or None)"""
    src = write(os.path.join(d, name + "_lib.rs"), lib_rs)
    out = os.path.join(d, "lib%s.a" % name)
    p = run(["rustc", "--edition", "2021", "--crate-type", "staticlib", "--crate-name", name, "-C", "panic=unwind", "-C", "debuginfo=0",
             "-C", "debug-assertions=yes", "-C", "opt-level=1", "--cap-lints", "warn", "-A", "warnings", "-o", out, src] + list(extra), timeout=600)
    return out, None if p.returncode == 0 else p.stderr


def cxx(d, main, exe, lib=None, incs=(), std="c++17", opt="-O1", asan=True, defs=(), libs=()):
    cmd = ["g++", "-std=" + std, opt, "-g0", "-Wno-return-type-c-linkage"] + (ASAN if asan else []) + ["-D%s" % x for x in defs]
    for i in incs:
        cmd += ["-I", i]
    cmd += [main, "-o", exe] + ([lib] if lib else []) + list(libs) + ["-lpthread", "-ldl", "-lm"]
    p = run(cmd, timeout=800)
    return None if p.returncode == 0 else p.stderr


def first_errors(text, n=6):
    ls = [l for l in text.splitlines() if "error" in l]
    return "\n".join((ls or text.splitlines())[:n])


def build(r, d, desc, rust_src, main_cpp, cfg=None, defs=(), opt="-O1", asan=True, merge=(), exe="prog", std="c++17", extra_incs=(), extra_flags=()):
    """description + Rust items + C++ main -> executable.  A problem of a valid description is returned
    as .problem with .kind in {refused, rust, cpp} (a fault of the tree under check)."""
    os.makedirs(d + "/out", exist_ok=True)
    src = write(d + "/desc.rs.in", desc)
    job = dict(lang="cpp", srcs=[src], out_rs=d + "/glue.rs", out_dir=d + "/out", ns="fg")
    job.update(cfg or {})
    if merge:
        job["merge"] = list(merge)
    g = gen(job, d)
    if not g.ok:
        return Built(problem="the generator refuses it:\n" + tail_err(g.err), kind="refused")
    lib, err = rust_lib(d, rust_src + '\ninclude!("glue.rs");\n')
    if err:
        return Built(problem="the generated Rust code does not compile:\n" + err[:3000], kind="rust")
    err = cxx(d, main_cpp, d + "/" + exe, lib, [d + "/out", os.path.join(VERIF, "mc/cpp"), d] + list(extra_incs), defs=defs, opt=opt, asan=asan, std=std, libs=extra_flags)
    if err:
        return Built(problem="the generated C++ code does not compile:\n" + first_errors(err) + "\n" + err[:1500], kind="cpp")
    return Built(exe=d + "/" + exe)


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:quarantine_size_mb=16:allocator_may_return_null=1:handle_abort=0", "UBSAN_OPTIONS": "print_stacktrace=0"}


def run_shards(r, exe, world, args, shards, timeout=800, replay=None, extra_env=None):
    """Runs `exe args.. shard nshards` for all shards and folds the VIOL/STATE/STATS lines into r."""
    def one(k):
        try:
            return run([exe] + [str(a) for a in args] + [str(k), str(shards)], timeout=timeout, env=env(**SAN_ENV, **(extra_env or {})))
        except Exception as e:
            return e
    for k, p in enumerate(pmap(one, range(shards))):
        absorb(r, world, p, k, replay)


def absorb(r, world, p, k=0, replay=None):
    if isinstance(p, Exception):
        raise CheckError("%s shard %d: %s" % (world, k, str(p)[:300]))
    saw_stats = False
    nviol = 0
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "VIOL" and len(f) >= 4:
            nviol += 1
            msg = "%s\nhistory: %s" % (f[2], f[3])
            if f[1].endswith("/crash"):
                msg += "\n" + "\n".join([x for x in p.stderr.splitlines() if x.strip()][:14])
            r.violation(f[1], msg, {"world": world, "history": f[3], "replay": replay})
        elif f[0] == "STATE":
            r.state((f[1], f[2]))
        elif f[0] == "STATS":
            saw_stats = True
            n = dict(x.split("=") for x in f[2:])
            r.transitions += int(n["steps"])
            r.traces += int(n["seq"])
        elif f[0] == "SAMPLE":
            r.sample(f[1])
        elif f[0] == "BFS":
            b = r.extra.setdefault("breadth_first", {})
            b[f[1]] = " ".join(f[2:])
        elif f[0] == "INFO":
            r.extra.setdefault("info", {})[f[1]] = f[2]
    if not saw_stats and not nviol:
        r.violation("%s/died" % world, "the exploration process died (rc=%s) without a report:\n%s\n%s" % (p.returncode, p.stdout[-500:], p.stderr[:2500]), {"world": world})
