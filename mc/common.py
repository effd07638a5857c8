"""Shared plumbing of the checks: building the driver from /repo's current tree, running the
real generator, compiling what it wrote, counting coverage, reporting."""
import concurrent.futures, hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FG_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
DRIVER = os.path.join(TARGET, "debug", "fgdrive")
NPROC = os.cpu_count() or 4
JAVA_HOME = os.environ.get("JAVA_HOME", "/usr/lib/jvm/java-17-openjdk-amd64")


class CheckError(Exception):
    """The check itself could not run (never a verdict)."""


def env(**kw):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable", "RUST_BACKTRACE": "0"})
    for k in ("RUSTFLAGS", "CARGO_CFG_TARGET_POINTER_WIDTH", "RUST_LOG", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, timeout=600, cwd=None, check=False, **kw):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                       text=True, errors="replace", **({"env": env()} | kw))
    if check and p.returncode != 0:
        raise CheckError("%s failed (%s):\n%s\n%s" % (cmd, p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return p


def cargo_build(crate_dir, extra=(), extra_env=None):
    e = env(CARGO_TARGET_DIR=TARGET)
    e.update(extra_env or {})
    p = subprocess.run(["cargo", "build", "--offline", "-q"] + list(extra), cwd=crate_dir, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p


def build_driver():
    p = cargo_build(os.path.join(VERIF, "driver"))
    if p.returncode != 0:
        raise CheckError("cannot build the driver (and with it flapigen) from %s:\n%s" % (REPO, p.stderr[-5000:]))
    return DRIVER


class GenResult:
    def __init__(self, ok, panic, log, out, err, rc):
        self.ok, self.panic, self.log, self.out, self.err, self.rc = ok, panic, log, out, err, rc


def gen(jobs, workdir, tag="j", seed=None, timeout=300, extra_env=None):
    """Runs a list of generator jobs in ONE process; returns a list of GenResult (stderr is shared)."""
    single = isinstance(jobs, dict)
    if single:
        jobs = [jobs]
    jf = os.path.join(workdir, "jobs-%s.jsonl" % tag)
    with open(jf, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    e = env()
    e.update(extra_env or {})
    p = subprocess.run([DRIVER, jf] + ([] if seed is None else [str(seed)]), env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    res = {}
    for l in p.stdout.splitlines():
        if l.startswith("RESULT "):
            r = json.loads(l[7:])
            res[r["i"]] = r
    out = []
    for i in range(len(jobs)):
        r = res.get(i)
        if r is None:
            out.append(GenResult(False, "process died rc=%s" % p.returncode, [], p.stdout, p.stderr, p.returncode))
        else:
            out.append(GenResult(r["ok"], r["panic"], r["log"], p.stdout, p.stderr, p.returncode))
    return out[0] if single else out


def pmap(f, xs, workers=None):
    with concurrent.futures.ThreadPoolExecutor(workers or NPROC) as ex:
        return list(ex.map(f, xs))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return path


def read(path):
    with open(path, errors="replace") as f:
        return f.read()


def tail_err(text, n=12):
    lines = [l for l in text.splitlines() if not re.match(r"^\s*\d+: |^\s+at |^cargo:warning", l)]
    return "\n".join(lines[:n])


class Report:
    def __init__(self, prop, level="model_checking", assumptions=()):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.assumptions = list(assumptions)
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.viol = {}      # key -> (msg, replay)
        self.known_hit = set()
        self.known = self._load_known()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _load_known(self):
        known = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3)
        return known

    def state(self, s):
        self.states.add(hashlib.blake2b(repr(s).encode(), digest_size=8).digest())

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, msg, replay=None):
        """key identifies the specific input/history; listed keys are known findings."""
        key = re.sub(r"\s+", "_", str(key))
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, key, self.known[key]), flush=True)
            return
        if key in self.viol:
            return
        name = "%s-%s.json" % (self.prop, hashlib.blake2b(key.encode(), digest_size=5).hexdigest())
        path = os.path.join(self.replays, name)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "key": key, "message": msg, "replay": replay}, f, indent=1)
        self.viol[key] = (msg, path)
        if len(self.viol) <= 20:
            print("---- %s: %s\n%s" % (self.prop, key, msg if len(msg) < 1800 else msg[:1800] + "..."), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def finish(self):
        cov = {"states": len(self.states) + self.n_states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        if self.level in ("exploration", "fault_enumeration"):
            cov = {"evaluations": self.transitions, "distinct_nontrivial": len(self.states) + self.n_states,
                   "samples": self.samples or ["(none)"], "traces_validated_against_impl": self.traces}
            cov.update(self.extra)
        if self.known_hit:
            cov["known_findings_seen"] = sorted(self.known_hit)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs" % (
            self.prop, self.tier, len(self.states) + self.n_states, self.transitions, self.traces, len(self.viol),
            len(self.known_hit), time.time() - self.t0), flush=True)
        if not self.viol:
            shutil.rmtree(self.work, ignore_errors=True)
        if self.transitions == 0:
            print("nothing was explored: check error")
            return 2
        return 1 if self.viol else 0
