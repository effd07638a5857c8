"""P02: every run reconciles the output directory.

(a) Explicit-state breadth-first search over output-directory states.  A state is the exact content of
the directory (file -> bytes, plus entries that are not ours); transitions are runs of the real
generator (two descriptions, removal on/off) and damage/edit actions.  After every run the model says
what the directory must hold.
(b) Fault enumeration: every file operation of a run, from several start states, as kill point, torn
write, short write and failing operation (LD_PRELOAD shim), followed by clean runs."""
import hashlib, json, os, shutil
from common import *

LEVEL = "model_checking"
ASSUMPTIONS = [
    "file operations reach libc's symbols (std does); power loss below the file API is not modelled",
    "runs are not concurrent with one another",
]

SPEC = {
    "cpp": {
        "A": "foreign_enum!(enum En { A = En::A, B = En::B, });\n"
             "foreign_class!(#[derive(Clone)] class K1 { self_type K1; constructor K1::new(a: i32) -> K1; fn K1::clone(&self) -> K1; fn K1::f(&self, e: En) -> Vec<u8>; });\n"
             "foreign_class!(class K2 { self_type K2; constructor K2::new() -> K2; fn K2::g(&self, v: Vec<K1>) -> Option<K1>; fn K2::h(&self) -> Result<String, String>; });\n"
             "foreign_callback!(callback Cb { self_type Cb; onA = Cb::on_a(&self, x: i32); });\n",
        "B": "foreign_enum!(enum En { A = En::A, B = En::B, C = En::C, });\n"
             "foreign_class!(class K1 { self_type K1; constructor K1::new(a: i64) -> K1; fn K1::f(&self, e: En) -> bool; });\n"
             "foreign_class!(class K3 { self_type K3; constructor K3::new() -> K3; fn K3::g(&self) -> i32; });\n",
    },
    "python": {
        "A": "foreign_class!(class K1 { self_type K1; constructor K1::new(a: i32) -> K1; fn K1::f(&self) -> u8; });\n",
        "B": "foreign_class!(class K1 { self_type K1; constructor K1::new(a: i64) -> K1; fn K1::f(&self) -> bool; });\n",
    },
}
SPEC["java"] = {k: v.replace("Vec<u8>", "Vec<i32>") for k, v in SPEC["cpp"].items()}
OWN = {"cpp": ("h", "hpp"), "java": ("java",), "python": ()}
SRCNAME = {"A": "a.rs", "B": "b.rs"}


def ext_of(name):
    n = os.path.basename(name)
    i = n.rfind(".")
    return n[i + 1:] if i > 0 else None


def load(d):
    st = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            if not os.listdir(os.path.join(root, x)):
                st[os.path.relpath(os.path.join(root, x), d) + "/"] = b""
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                st[os.path.relpath(p, d)] = b"->" + os.readlink(p).encode()
            else:
                with open(p, "rb") as fh:
                    st[os.path.relpath(p, d)] = fh.read()
    return st


def store(d, st):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, v in st.items():
        p = os.path.join(d, k)
        if k.endswith("/"):
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v)


def canon(st):
    h = hashlib.blake2b(digest_size=16)
    for k in sorted(st):
        h.update(k.encode() + b"\0" + hashlib.blake2b(st[k], digest_size=16).digest())
    return h.hexdigest()


class Lang:
    def __init__(self, r, lang):
        self.r, self.lang = r, lang
        self.base = os.path.join(r.work, lang)
        self.src = {s: write(os.path.join(self.base, "in", SRCNAME[s]), t) for s, t in SPEC[lang].items()}
        self.fresh = {}
        self.n = 0
        for s in "AB":
            d = os.path.join(self.base, "fresh" + s)
            os.makedirs(d)
            g = gen(self.job(s, False, d), self.base)
            if not g.ok:
                raise CheckError("description refused: " + g.err[-1000:])
            self.fresh[s] = load(d)

    def job(self, s, rm, d):
        j = {"lang": self.lang, "srcs": [self.src[s]], "out_rs": os.path.join(d, "glue.rs"), "out_dir": d, "remove": rm,
             "ns": "fg", "package": "fg.p", "module": "fgm"}
        return j

    def own(self, k):
        return "/" not in k and ext_of(k) in OWN[self.lang]

    # the model: what a successful run must leave behind
    def expect(self, st, s, rm):
        out = {k: v for k, v in st.items() if not (rm and self.own(k) and k not in self.fresh[s])}
        out.update(self.fresh[s])
        return out

    def obstructed(self, st, s):
        """a directory sits where a file must go (or an own-kind directory has to be removed)"""
        return any(k.split("/")[0] in self.fresh[s] and "/" in k for k in st)

    def odd_dir(self, st):
        return any("/" in k and ext_of(k.split("/")[0]) in OWN[self.lang] for k in st)


def difference(want, got, limit=4):
    d = []
    for k in sorted(set(want) | set(got)):
        if want.get(k) != got.get(k):
            d.append("%s: %s" % (k, "missing" if k not in got else "unexpected" if k not in want else
                                 "wrong content (%d bytes, expected %d)" % (len(got[k]), len(want[k]))))
    return "; ".join(d[:limit]) if d else None


def damages(L, st, thorough):
    """edit/damage actions enabled in a state: (name, new state)"""
    fa = L.fresh["A"]
    cls = "K1.hpp" if L.lang == "cpp" else "K1.java" if L.lang == "java" else "glue.rs"
    gone = "K2.hpp" if L.lang == "cpp" else "K2.java" if L.lang == "java" else "glue.rs"
    helpers = [k for k in sorted(fa) if k not in L.fresh["B"] or fa[k] == L.fresh["B"][k]]
    names = [cls, "glue.rs", gone]
    if L.lang == "cpp":
        names += ["rust_vec_impl.hpp", "c_En.h"]
    elif L.lang == "java":
        names += ["JNIReachabilityFence.java", "En.java"]
    if thorough:
        names = sorted(set(names) | set(fa) | set(L.fresh["B"]))
    for n in dict.fromkeys(names):
        v = st.get(n)
        if v is None:
            if n in fa and not any(k.startswith(n + "/") for k in st):
                yield "appears-empty:" + n, dict(st, **{n: b""})
            continue
        t = dict(st); del t[n]
        yield "delete:" + n, t
        if len(v) > 4:
            yield "empty:" + n, dict(st, **{n: b""})
            yield "truncate:" + n, dict(st, **{n: v[:len(v) // 2]})
            m = bytearray(v); m[len(m) // 3] ^= 1
            yield "flip:" + n, dict(st, **{n: bytes(m)})
            m = bytearray(v); m[-1] ^= 1
            yield "flip-last:" + n, dict(st, **{n: bytes(m)})
            yield "append:" + n, dict(st, **{n: v + b"\n"})
            yield "prefix:" + n, dict(st, **{n: b"\xef\xbb\xbf" + v})
            yield "crlf:" + n, dict(st, **{n: v.replace(b"\n", b"\r\n")})
            yield "notutf8:" + n, dict(st, **{n: b"\xff\xfe" + v[2:]})
            yield "dropline:" + n, dict(st, **{n: v[:-1]})
    e = OWN[L.lang][0] if OWN[L.lang] else "py"
    users = {"notes.txt": b"mine", "Mine." + e: b"mine", "sub/Inner." + e: b"keep", "sub/K1." + e: b"keep too",
             "UPPER." + e.upper(): b"keep", "noext": b"", "K2." + e + ".bak": b"keep", "." + e: b"keep", "x.rs": b"keep",
             ".hid." + e: b"gone", e: b"keep", "a." + e + "x": b"keep", "c_api.c": b"keep", "K9.cpp": b"k", "data.json": b"{}",
             "K1.class": b"k", "Old." + OWN[L.lang][-1] if OWN[L.lang] else "z": b"x"}
    missing = {k: v for k, v in users.items() if k not in st}
    if missing:
        yield "user-files", dict(st, **missing)
    for k in list(users)[:(len(users) if thorough else 4)]:
        if k not in st:
            yield "add:" + k, dict(st, **{k: users[k]})
    # a directory in place of a generated file, or with an own-kind name
    if cls not in st:
        yield "dir-instead:" + cls, dict(st, **{cls + "/x": b"1"})
    if OWN[L.lang]:
        yield "own-kind-dir", dict(st, **{"D." + e + "/keep.txt": b"1"})


def bfs(r, L, depth):
    d0 = {}
    seen = {canon(d0): []}
    frontier = [(d0, [])]
    for lvl in range(depth):
        jobs = []   # (state, hist, spec, rm)
        nxt = []
        for st, hist in frontier:
            for s in "AB":
                for rm in (False, True):
                    jobs.append((st, hist, s, rm))
            if lvl + 1 < depth or True:
                for name, t in damages(L, st, r.thorough):
                    r.transitions += 1
                    c = canon(t)
                    if c not in seen:
                        seen[c] = hist + [name]
                        nxt.append((t, hist + [name]))
        def do(chunk):
            idx, part = chunk
            js, ds = [], []
            for i, (st, hist, s, rm) in enumerate(part):
                d = os.path.join(L.base, "w%d_%d" % (idx, i))
                store(d, st)
                ds.append(d)
                js.append(L.job(s, rm, d))
            gs = gen(js, L.base, tag="%s-%d-%d" % (L.lang, lvl, idx))
            out = [(load(d), g.ok, g.panic) for d, g in zip(ds, gs)]
            for d in ds:
                shutil.rmtree(d)
            return out
        n = max(1, min(60, len(jobs) // NPROC + 1))
        chunks = list(enumerate([jobs[i:i + n] for i in range(0, len(jobs), n)]))
        for (idx, part), outs in zip(chunks, pmap(do, chunks)):
            for (st, hist, s, rm), (got, ok, panic) in zip(part, outs):
                r.transitions += 1
                r.traces += 1
                step = "run%s%s" % (s, "+rm" if rm else "")
                h = hist + [step]
                key = "%s/%s" % (L.lang, ">".join(h))
                blocked = L.obstructed(st, s)
                odd = rm and L.odd_dir(st)
                if ok:
                    if blocked:
                        r.violation(key + "/success", "success reported although a directory is in the way of a generated file", h)
                        continue
                    dd = difference(L.expect(st, s, rm), got)
                    if dd:
                        r.violation(key, "history %s leaves: %s" % (h, dd), h)
                        continue
                else:
                    if not blocked and not odd:
                        r.violation(key + "/refused", "run failed without any obstacle: %s" % panic, h)
                        continue
                    # nothing that is not generated may have been lost
                    lost = [k for k in st if k not in got and not (rm and L.own(k))]
                    if lost:
                        r.violation(key + "/lost", "failed run removed %s" % lost, h)
                    continue
                c = canon(got)
                if c not in seen:
                    seen[c] = h
                    nxt.append((got, h))
        frontier = nxt
    for c in seen:
        r.state((L.lang, c))
    r.sample({"lang": L.lang, "deepest_history": max(seen.values(), key=len)})
    # every state still in the last frontier is reconciled too
    return frontier


def faults(r, L, so):
    starts = {"empty": {}, "other": L.fresh["B"], "current": L.fresh["A"]}
    dmg = {k: (v[:len(v) // 2] if i % 2 else v + b"x") for i, (k, v) in enumerate(sorted(L.fresh["A"].items()))}
    dmg.update({"notes.txt": b"mine", "Mine." + (OWN[L.lang][0] if OWN[L.lang] else "py"): b"own kind"})
    starts["damaged"] = dmg
    kinds = ["kill", "killafter", "torn", "tornerr", "short", "eio", "enospc", "eintr", "zero"]
    cases = []
    counts = {}
    for sn, st in starts.items():
        for rm in (False, True):
            d = os.path.join(L.base, "cnt")
            store(d, st)
            log = os.path.join(L.base, "cnt.log")
            if os.path.exists(log):
                os.unlink(log)
            g = gen(L.job("A", rm, d), L.base, tag="cnt", extra_env={"LD_PRELOAD": so, "FG_ROOT": d + "/", "FG_LOG": log})
            ops = [l.split("\t") for l in read(log).splitlines()]
            if not g.ok or not ops:
                raise CheckError("fault shim does not see the run: %s" % g.err[-500:])
            counts[sn, rm] = len(ops)
            for n, op in enumerate(ops, 1):
                for k in kinds:
                    if k in ("torn", "tornerr", "zero", "short") and op[1] not in ("write", "read"):
                        continue
                    if k in ("torn", "tornerr", "zero") and op[1] != "write":
                        continue
                    if k == "eintr" and op[1] not in ("write", "read"):
                        continue
                    if k == "killafter" and op[1] in ("read", "close", "openr"):
                        continue
                    if k in ("eio", "enospc") and op[1] == "close":
                        continue
                    if k == "enospc" and op[1] in ("openr", "read", "unlink") and not r.thorough:
                        continue
                    cases.append((sn, rm, n, k, op[1]))
                    if r.thorough:
                        break_pairs = True
    r.extra.setdefault("file_operations_per_run", {})[L.lang] = {"%s%s" % (a, "+rm" if b else ""): c for (a, b), c in counts.items()}

    def do(ic):
        i, (sn, rm, n, k, op) = ic
        d = os.path.join(L.base, "f%d" % i)
        st = starts[sn]
        store(d, st)
        log = os.path.join(L.base, "f%d.log" % i)
        g = gen(L.job("A", rm, d), L.base, tag="f%d" % i,
                extra_env={"LD_PRELOAD": so, "FG_ROOT": d + "/", "FG_LOG": log, "FG_FAULT": "%s:%d" % (k, n)})
        mid = load(d)
        failed = [l for l in read(log).splitlines() if "\tFAILED\t" in l]
        out = []
        what = "%s/%s%s/%s@%d(%s)" % (L.lang, sn, "+rm" if rm else "", k, n, op)
        lost = [x for x in st if x not in mid and not (rm and L.own(x)) and x not in L.fresh["A"]]
        if lost:
            out.append((what + "/lost", "files that are not generated disappeared: %s" % lost))
        if g.ok:
            if failed:
                out.append((what + "/silent", "the run reports success although %s failed" % failed[0].split("\t")[2]))
            dd = difference(L.expect(st, "A", rm), mid)
            if dd:
                out.append((what + "/wrong", "the run reports success but leaves: " + dd))
        elif k in ("short", "eintr"):
            out.append((what + "/refused", "a %s result made the run fail: %s" % (k, g.panic)))
        # recovery: clean runs, other description in between or not
        recs = [[("A", rm)], [("B", rm)]] + ([[("B", not rm), ("A", rm)]] if r.thorough else [])
        for rec in recs:
            store(d, mid)
            cur = mid
            for s2, rm2 in rec:
                g2 = gen(L.job(s2, rm2, d), L.base, tag="f%d" % i)
                if not g2.ok:
                    out.append((what + "/no-recovery", "the next run fails: %s" % g2.panic))
                    break
                got = load(d)
                dd = difference(L.expect(cur, s2, rm2), got)
                if dd:
                    out.append((what + "/recovery-%s" % s2, "after the fault a clean run leaves: " + dd))
                    break
                cur = got
        shutil.rmtree(d)
        for x in (log, os.path.join(L.base, "jobs-f%d.jsonl" % i)):
            if os.path.exists(x):
                os.unlink(x)
        return out, canon(mid), len(recs)
    for c, (out, st, nrec) in zip(cases, pmap(do, list(enumerate(cases)))):
        r.transitions += 1 + nrec
        r.traces += 1
        r.state((L.lang, "fault", st))
        for key, msg in out:
            r.violation(key, msg, {"lang": L.lang, "case": c})
    r.extra.setdefault("fault_cases", {})[L.lang] = len(cases)
    r.sample({"lang": L.lang, "fault_case": cases[len(cases) // 2]})


def check(r):
    so = os.path.join(r.work, "faultfs.so")
    run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "mc/c/faultfs.c"), "-ldl"], check=True)
    for lang in ("cpp", "java", "python"):
        L = Lang(r, lang)
        bfs(r, L, 4 if r.thorough and lang != "cpp" else 3)
        faults(r, L, so)
