"""Shared machinery: building the code under test, running TLC, evidence, replays."""
import atexit
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BIN = os.path.join(REPO, "target/debug/jinja-lsp")
ADDON = os.path.join(REPO, "target/debug/libjinja_lsp_nodejs.so")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CPUS = min(8, os.cpu_count() or 8)


class Broken(Exception):
    """The check itself can't give an answer (exit 2)."""


# ------------------------------------------------------------------ scratch
_scratch = None
_lock = threading.Lock()
_n = 0


def subdir(name):
    global _scratch, _n
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="jinjaverif-")
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        _n += 1
        p = os.path.join(_scratch, "%s-%d" % (name, _n))
    os.makedirs(p)
    return p


# -------------------------------------------------------------------- build
def _source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build():
    """Build the working tree of /repo the way /opt/vp/build.sh does. The mtime of a source
    file isn't trusted: crates of the workspace are rebuilt unless this very source was built."""
    env = dict(os.environ)
    env.update({
        "HOME": "/root", "PATH": "/root/.cargo/bin:/usr/local/bin:" + os.environ.get("PATH", ""),
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
        "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
        "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
        "CARGO_TARGET_DIR": os.path.join(REPO, "target")})
    stamp = os.path.join(REPO, "target", ".verif-source")
    digest = _source_hash()
    try:
        with open(stamp) as f:
            old = f.read().strip().split()
        same = old[0] == digest and old[1] == _bin_hash()
    except (OSError, IndexError):
        same = False
    if same:
        return
    t = time.time()
    if os.path.isdir(os.path.join(REPO, "target", "debug")):
        subprocess.run(["cargo", "clean", "--offline", "-p", "jinja-lsp-queries", "-p", "jinja-lsp",
                        "-p", "jinja-lsp-nodejs"], cwd=REPO, env=env, capture_output=True)
    r = subprocess.run(["cargo", "build", "--workspace", "--locked", "--offline"], cwd=REPO, env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("build failed:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(digest + " " + _bin_hash())
    log("built in %.0f s" % (time.time() - t))


def _bin_hash():
    h = hashlib.sha256()
    for p in (BIN, ADDON):
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.states = 0       # states found/checked
        self.distinct = 0
        self.out = ""
        self.cases = []
        self.depth = 0


def cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(cfg_value(x) for x in v)) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def tlc(module, constants=None, invariants=(), properties=(), spec="Spec", simulate=None, depth=None,
        seed=None, workers=1, constraint=None, view=None, out_const=None, deadlock=False, heap="3g",
        timeout=800, symmetry=None, action_constraint=None, postcondition=None, raw=None,
        expect_violation=False):
    """Run TLC on /verif/spec/<module>.tla. With `out_const` the specification writes test cases
    as one JSON document per line to the file named by that constant."""
    d = subdir("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    constants = dict(constants or {})
    res = TlcResult()
    outfile = os.path.join(d, "cases.ndjson")
    if out_const:
        constants[out_const] = outfile
    lines = ["SPECIFICATION " + spec]
    for k, v in constants.items():
        lines.append("CONSTANT %s = %s" % (k, cfg_value(v)))
    for i in invariants:
        lines.append("INVARIANT " + i)
    for i in properties:
        lines.append("PROPERTY " + i)
    for kw, v in (("CONSTRAINT", constraint), ("VIEW", view), ("SYMMETRY", symmetry),
                  ("ACTION_CONSTRAINT", action_constraint), ("POSTCONDITION", postcondition)):
        if v:
            lines.append("%s %s" % (kw, v))
    lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Dfile.encoding=UTF-8",
           "-Djava.io.tmpdir=" + d, "-cp", JARS,
           "tlc2.TLC", "-config", "M.cfg", "-metadir", os.path.join(d, "states"), "-workers", str(workers),
           "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    cmd += ["-seed", str(SEED if seed is None else seed)]
    cmd.append(module + ".tla")
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    res.out = r.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    if m:
        res.states = int(m[-1][0].replace(",", ""))
        res.distinct = int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", r.stdout)
    if m:
        res.states = res.distinct = int(m[-1].replace(",", ""))
    res.violated = re.findall(r"(?:Invariant|property) (\S+) is violated", r.stdout) + \
        re.findall(r"Temporal properties were (violated)", r.stdout) + \
        re.findall(r"(Deadlock) reached", r.stdout)
    if not expect_violation and (r.returncode != 0 or res.violated):
        text = "\n".join(x for x in r.stdout.splitlines() if not re.match(r"(Parsing|Semantic proc|TLC2|Running)", x))
        raise Broken("TLC on %s failed (%s):\n%s\n%s" % (module, res.violated, text[:2500], r.stderr[-500:]))
    if out_const and os.path.exists(outfile):
        with open(outfile, encoding="utf-8") as f:
            for line in f:
                line = line.rstrip("\n")
                if line:
                    res.cases.append(json.loads(json.loads(line)))
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc_many(runs):
    """Several TLC runs side by side; each is the kwargs of tlc()."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=CPUS) as ex:
        fs = [ex.submit(lambda kw=kw: tlc(**kw)) for kw in runs]
        return [f.result() for f in fs]


# ----------------------------------------------------------------- checking
def pool(fn, jobs, workers=CPUS):
    """fn(job) for every job, in threads; results in order. The first exception wins."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, jobs))


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


class Check:
    """What one run of one check found and covered."""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = 0
        self.notes = []
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.examples = []

    def model(self, res):
        self.states += res.distinct
        self.transitions += res.states
        return res

    def violation(self, what, replay):
        if len(self.violations) < 5:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, len(self.violations) + 1))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1,
                          ensure_ascii=False, default=str)
            log("  " + what[:1500])
            log("VIOLATION property=%s replay=%s" % (self.prop, p))
            self.violations.append({"what": what[:2000], "replay": p})
        else:
            self.violations.append(None)

    def finding(self, what):
        log("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        self.findings.append(what)

    def finish(self, seeds=None):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.examples[:5], "observations_compared": self.samples,
                "exhaustive": False, "notes": self.notes, "known_findings": self.findings},
            "wall_s": round(time.time() - self.t, 1),
            "violations": len(self.violations),
            "assumptions": self.assumptions}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %d model states, %d traces, %d observations, %d violations, %.0f s" % (
            self.prop, self.tier, self.states, self.traces, self.samples, len(self.violations),
            time.time() - self.t))
        return 1 if self.violations else 0
