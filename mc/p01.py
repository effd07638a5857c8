"""P01: generation is a pure function of descriptions and configuration.

Explicit-state exploration: the environment of a run is a tuple (process history, hash seed, place of
the inputs/outputs, way the paths are spelled, what the output directory holds, process environment).
Every environment of the menu is visited for every description; the observed output must be one and the
same state for all of them."""
import json, os, shutil
import corpus
from common import *

ASSUMPTIONS = [
    "hash seeds are owned through an interposed getrandom; address-space layout varies freely between processes",
    "rustfmt is the installed one; its own determinism is assumed",
]


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def stats(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (st.st_ino, st.st_mtime_ns, st.st_size)
    return out


class Place:
    def __init__(self, base, entry, rel=False):
        self.base, self.entry = base, entry
        self.gendir = os.path.join(base, "gen")
        os.makedirs(self.gendir, exist_ok=True)
        self.srcs = [write(os.path.join(base, "in", n), t) for n, t in entry["srcs"]]

    def job(self, spell="abs"):
        f = (lambda p: p)
        if spell == "rel":
            f = lambda p: os.path.relpath(p, self.base)
        elif spell == "dots":
            f = lambda p: os.path.join(os.path.dirname(p), ".", "..", os.path.basename(os.path.dirname(p)), os.path.basename(p))
        j = dict(self.entry["cfg"], lang=self.entry["lang"], srcs=[f(s) for s in self.srcs],
                 out_rs=f(os.path.join(self.gendir, "glue.rs")), out_dir=f(self.gendir))
        return j


def diff(a, b):
    ks = sorted(set(a) | set(b))
    for k in ks:
        if a.get(k) != b.get(k):
            if k not in a or k not in b:
                return "file %s only in one of the runs" % k
            x, y = a[k], b[k]
            n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return "file %s differs at byte %d:\n  ...%r\n  ...%r" % (k, n, x[max(0, n - 60):n + 100], y[max(0, n - 60):n + 100])
    return None


def run_raw(jobs, work, tag, seed, cwd=None, xenv=None, timeout=300):
    jf = write(os.path.join(work, "jobs-%s.jsonl" % tag), "".join(json.dumps(j) + "\n" for j in jobs))
    e = env()
    e.update(xenv or {})
    p = subprocess.run([DRIVER, jf, str(seed)], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=timeout)
    return p


def check(r):
    entries = corpus.repo_entries() + corpus.own_entries()
    if not r.thorough:
        # the expectation files exist twice (C++/Java); all are kept, the environments are fewer
        seeds = [1, 2, 3, 12345, 987654321]
    else:
        seeds = list(range(1, 41)) + [2 ** 31, 2 ** 61, 12345678901234567]
    r.extra["descriptions"] = len(entries)
    base = {}
    # 1. reference observation, one process per description; also finds out which are accepted
    def first(ie):
        i, e = ie
        pl = Place(os.path.join(r.work, "a%d" % i), e)
        p = run_raw([pl.job()], pl.base, "r", 1)
        return (p.returncode == 0, snapshot(pl.gendir), p.stderr[-1500:])
    ref = pmap(first, list(enumerate(entries)))
    bad = [e["name"] for e, x in zip(entries, ref) if not x[0]]
    r.extra["descriptions_refused"] = len(bad)
    ok = [i for i, x in enumerate(ref) if x[0]]
    if len(bad) > len(entries) // 4:
        raise CheckError("most descriptions are refused: %s %s" % (bad[:5], ref[entries.index(next(e for e in entries if e["name"] == bad[0]))][2]))

    def compare(i, snap, how, replay):
        r.transitions += 1
        r.traces += 1
        r.state((entries[i]["name"], how))
        d = diff(ref[i][1], snap)
        if d:
            r.violation("%s/%s" % (entries[i]["name"], how), d, replay)

    # 2. environments
    def envs(i):
        e = entries[i]
        res = []
        def observe(how, pl, jobs, seed, cwd=None, xenv=None, clean=True):
            if clean:
                shutil.rmtree(pl.gendir, ignore_errors=True)
                os.makedirs(pl.gendir)
            p = run_raw(jobs, pl.base, "e", seed, cwd, xenv)
            if p.returncode != 0:
                res.append((how, None, "run refused: " + p.stderr[-800:]))
            else:
                res.append((how, snapshot(pl.gendir), {"entry": e["name"], "jobs": jobs, "seed": seed}))
        a = Place(os.path.join(r.work, "a%d" % i), e)
        for s in seeds[1:]:
            observe("seed-%d" % s, a, [a.job()], s)
        # the same process: repeated into a second place, then back
        b = Place(os.path.join(r.work, "b%d" % i, "Other dir", "z" * 60), e)
        observe("second-in-process", b, [a.job(), b.job()], 1)
        observe("third-in-process", a, [b.job(), a.job(), b.job(), a.job()], 5)
        # other place / spelling / environment
        observe("other-place", b, [b.job()], 1)
        observe("relative-paths", a, [a.job("rel")], 1, cwd=a.base)
        observe("dotted-paths", a, [a.job("dots")], 2)
        observe("environment", a, [a.job()], 1, cwd="/", xenv={"LANG": "tr_TR.UTF-8", "LC_ALL": "C", "TZ": "Asia/Tokyo",
                "USER": "nobody", "HOME": "/nonexistent", "OUT_DIR": "/x", "TARGET": "i686-unknown-linux-gnu",
                "CARGO_CFG_TARGET_POINTER_WIDTH": "64", "CARGO_PKG_NAME": "other", "PROFILE": "release"} if not e["cfg"].get("rustfmt") else {"LANG": "tr_TR.UTF-8"})
        # output directory: up to date -> nothing is rewritten
        shutil.rmtree(a.gendir); os.makedirs(a.gendir)
        run_raw([a.job()], a.base, "u", 1)
        for f in os.listdir(a.gendir):
            os.utime(os.path.join(a.gendir, f), ns=(10 ** 18, 10 ** 18))
        before = stats(a.gendir)
        # seen from a different seed, too
        for how, s in (("up-to-date", 1), ("up-to-date-seed", 77)):
            observe(how, a, [a.job()], s, clean=False)
            after = stats(a.gendir)
            ch = [k for k in after if before.get(k) != after[k]]
            if ch:
                res.append((how + "-rewritten", None, "up-to-date files were written again: %s" % ch))
        # leftovers of an earlier run of another description
        o = ok[(ok.index(i) + 1) % len(ok)]
        oe = dict(entries[o])
        op = Place(os.path.join(r.work, "c%d" % i), oe)
        opj = op.job(); opj["out_dir"] = a.gendir; opj["out_rs"] = os.path.join(a.gendir, "glue.rs")
        shutil.rmtree(a.gendir); os.makedirs(a.gendir)
        p = run_raw([opj, a.job()], a.base, "o", 1)
        if p.returncode == 0:
            snap = snapshot(a.gendir)
            extra = {k: v for k, v in snap.items() if k not in ref[o][1]}
            res.append(("after-other", {k: v for k, v in snap.items() if k in ref[i][1]}, {"entry": e["name"], "after": oe["name"]}))
        shutil.rmtree(os.path.join(r.work, "a%d" % i)); shutil.rmtree(os.path.join(r.work, "b%d" % i)); shutil.rmtree(os.path.join(r.work, "c%d" % i))
        return i, res
    for i, res in pmap(envs, ok):
        for how, snap, info in res:
            if snap is None:
                r.violation("%s/%s" % (entries[i]["name"], how), info)
                r.transitions += 1
            else:
                compare(i, snap, how, info)
    r.sample({"description": entries[ok[0]]["name"], "environments": sorted({how for how, _, _ in res}),
              "files": sorted(ref[ok[0]][1])})
    # 3. one process doing all of them in two different orders
    for tag, order in (("forward", ok), ("backward", ok[::-1])):
        pls = [Place(os.path.join(r.work, "all-" + tag, str(i)), entries[i]) for i in order]
        p = run_raw([pl.job() for pl in pls], r.work, "all-" + tag, 99, timeout=600)
        for i, pl in zip(order, pls):
            compare(i, snapshot(pl.gendir), "all-in-one-process-" + tag, {"order": [entries[k]["name"] for k in order]})
    r.extra["exhaustive"] = True
    r.extra["outcomes_per_description"] = 1 if not r.viol else "several"
