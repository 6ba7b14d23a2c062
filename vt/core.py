"""Machinery shared by all checks: building the harness, running cases against the real crate,
model checking the specification and validating recorded traces with TLC."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
TARGET = os.path.join(VERIF, ".build", "target")
HARNESS = os.path.join(TARGET, "debug", "pe-harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def repo_state():
    r = subprocess.run(["git", "-C", REPO, "status", "--porcelain", "--untracked-files=no"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout


def build_harness():
    """Builds the harness from /repo's current working tree."""
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("perception-eval", "perception_eval")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), HOME=os.environ.get("HOME", "/root"))
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(VERIF, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix="pe-%s-" % pid, dir=base)
        self.states = self.transitions = 0
        self.models = []
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.scratch, "%05d-%s" % (self.n, name))

    def thorough(self):
        return self.tier == "thorough"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def run_tlc(ctx, module, cfg, workers=1, env=None, timeout=840, heap="2g", extra=()):
    meta = ctx.path("meta")
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap,
           "-cp", JARS, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return r


def counts(out):
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
    if m:
        return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))
    m = re.findall(r"^Progress: ([\d,]+) states checked, ([\d,]+) traces generated", out, re.M)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][0].replace(",", ""))
    return 0, 0


def model_check(ctx, module, overrides=None, workers=CORES, timeout=840, heap="8g", extra=()):
    """Checks a design configuration of the specification; its failure is an error of the check."""
    cfg = os.path.join(SPEC, module + ".cfg")
    text = open(cfg).read()
    for k, v in (overrides or {}).items():
        text, n = re.subn(r"\b%s\s*(=|<-)\s*\S+" % k, lambda m: "%s %s %s" % (k, m[1], v), text)
        if n != 1:
            raise ToolError("constant %s not in %s" % (k, cfg))
    mine = ctx.path(module + ".cfg")
    open(mine, "w").write(text)
    t = time.time()
    r = run_tlc(ctx, module, mine, workers=workers, timeout=timeout, heap=heap, extra=extra)
    if r.returncode != 0 or "No error has been found" not in r.stdout and "-simulate" not in extra:
        raise ToolError("model %s fails:\n%s" % (module, r.stdout[-3000:]))
    d, g = counts(r.stdout)
    ctx.states += d
    ctx.transitions += g
    ctx.models.append({"model": module, "constants": overrides or {}, "distinct_states": d,
                       "transitions": g, "wall_s": round(time.time() - t, 1)})


def generate(ctx, module, overrides=None, timeout=600):
    """Lets TLC enumerate cases from the specification (Gen_* modules write JSON lines)."""
    out = ctx.path(module + ".ndjson")
    cfg = os.path.join(SPEC, module + ".cfg")
    text = open(cfg).read()
    for k, v in (overrides or {}).items():
        text, n = re.subn(r"\b%s\s*(=|<-)\s*\S+" % k, lambda m: "%s %s %s" % (k, m[1], v), text)
        if n != 1:
            raise ToolError("constant %s not in %s" % (k, cfg))
    mine = ctx.path(module + ".cfg")
    open(mine, "w").write(text)
    r = run_tlc(ctx, module, mine, env={"OUT": out}, timeout=timeout, heap="6g")
    if r.returncode != 0 or not os.path.exists(out):
        raise ToolError("generator %s fails:\n%s" % (module, r.stdout[-3000:]))
    return [json.loads(l) for l in open(out)]


class Stop:
    """Set once the implementation has hung (or ended the process often): the violation is found, and
    every further case could cost as much."""
    def __init__(self):
        self.on = False


def run_shard(args):
    """Runs cases in one harness process at a time; a process that ends early (hang, abort) is
    restarted after the case that ended it."""
    cases, cpath, opath, cwd, stop, threads = args
    todo = list(cases)
    res = {}
    ended = 0
    while todo and not stop.on:
        with open(cpath, "w") as f:
            for c in todo:
                f.write(json.dumps(c) + "\n")
        if os.path.exists(opath):
            os.remove(opath)
        try:
            r = subprocess.run([HARNESS, cpath, opath, str(threads)], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=3000)
        except subprocess.TimeoutExpired:
            raise ToolError("harness does not end")
        if r.returncode == 4:
            raise ToolError("harness: " + r.stderr[-2000:])
        if os.path.exists(opath):
            for line in open(opath):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o["id"] in res:      # observed again, otherwise
                    res[o["id"]].setdefault("more", []).append(o)
                else:
                    res[o["id"]] = o
        rest = [c for c in todo if c["id"] not in res]
        if not rest:
            if r.returncode not in (0, 3):      # ended while observing a case again
                k = todo[-1]["id"]
                res[k].setdefault("more", []).append({"id": k, "st": "abort", "msg": "exit %d" % r.returncode})
            break
        if r.returncode == 0:
            raise ToolError("harness left out cases")
        if rest == todo or r.returncode != 3:
            # the first case without observation ended the process (abort, stack overflow, ...)
            res[rest[0]["id"]] = {"id": rest[0]["id"], "st": "abort", "msg": "exit %d" % r.returncode}
            rest = rest[1:]
        ended += 1
        if r.returncode == 3 or ended >= 20:
            stop.on = True
        todo = rest
    return res


def run_cases(ctx, cases, shards=CORES, threads=1):
    n = max(1, min(shards, len(cases) // 4 or 1))
    work = ctx.path("cwd")
    os.makedirs(work)
    stop = Stop()
    parts = [(cases[k::n], ctx.path("cases"), ctx.path("obs"), work, stop, threads) for k in range(n)]
    res = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(run_shard, parts):
            res.update(r)
    if not stop.on and len(res) < len(cases):
        raise ToolError("cases without observation")
    return res


REJECT = re.compile(r'^"REJECT (\d+) \{(.*)\}"\s*$', re.M)


BROKEN = 3      # calls set aside before a shard is given up
FAILED_AT = re.compile(r"^(?:/\\ )?i = (\d+)", re.M)


def validate_chunk(args):
    """A call whose observation the specification cannot evaluate is set aside, and the others decided."""
    ctx, module, recs, path, timeout = args
    recs, bad, broken = list(recs), {}, []
    d = g = 0
    while recs:
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        r = run_tlc(ctx, module, module + ".cfg", env={"TRACE": path}, timeout=timeout, heap="3g")
        out = r.stdout.replace('\\"', '"')
        for m in REJECT.finditer(out):
            names = re.findall(r'"([^"]+)"', m.group(2))
            bad.setdefault(int(m.group(1)), set()).update(names)
        x, y = counts(r.stdout)
        d, g = d + x, g + y
        if r.returncode == 0 and '"DONE %d"' % len(recs) in r.stdout:
            break
        at = FAILED_AT.findall(r.stdout)
        broken.append("validator %s fails at case %s (trace kept at %s):\n%s" % (
            module, recs[int(at[-1]) - 1]["id"] if at else "?", keep(path), r.stdout[-3000:]))
        if not at or len(broken) >= BROKEN:
            break
        recs = recs[int(at[-1]):]
    return bad, d, g, broken


def keep(path):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    to = os.path.join(d, "failed-trace.ndjson")
    shutil.copy(path, to)
    return to


def validate(ctx, module, recs, timeout=840, chunk=None):
    """Validates recorded calls against the specification; returns {id: names of failed requirements}
    and what the specification could not evaluate."""
    if not recs:
        return {}, []
    if chunk is None:
        chunk = max(1, min(2500, (len(recs) + CORES - 1) // CORES))
    parts = [recs[k:k + chunk] for k in range(0, len(recs), chunk)]
    bad, broken = {}, []
    with cf.ThreadPoolExecutor(CORES) as ex:
        jobs = [(ctx, module, p, ctx.path("trace"), timeout) for p in parts]
        for b, d, g, e in ex.map(validate_chunk, jobs):
            bad.update(b)
            broken += e
            ctx.states += d
            ctx.transitions += g
    return bad, broken
