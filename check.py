#!/usr/bin/env python3
"""Supervisor of the run-time monitors.

    check.py ID                run the check of one property (tier and seed from
                               VERIF_TIER and VERIF_SEED)
    check.py ID --replay FILE  run again the case a violation came from
    check.py --setup           warm the build cache

It instruments the code under test as it is in /repo now (through a build
overlay; /repo is not written), builds the monitors against it, runs their
phases in parallel shards, judges reports, crashes and race reports, writes
evidence/ID.json, and exits 0 (held on everything observed), 1 (violation) or
2 (no verdict).
"""
import sys; sys.dont_write_bytecode = True  # noqa: E702
import json, os, re, resource, shutil, struct, subprocess, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
PKG = "github.com/sonirico/visigoth"
NSHARDS = 8
LIMIT = {"quick": 240, "thorough": 1500}  # seconds a shard may start new cases for


class Phase:
    """One workload: which build, how goroutines are scheduled, which part."""

    def __init__(self, variant, mode, part="", quick=1.0, thorough=1.0, procs=0):
        self.variant, self.mode, self.part = variant, mode, part
        self.scale = {"quick": quick, "thorough": thorough}
        self.procs = procs

    def name(self):
        return self.variant + "/" + self.mode + ("/" + self.part if self.part else "")


from phases import PHASES, RULES, ASSUMPTIONS  # noqa: E402


class NoVerdict(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOTOOLCHAIN="local", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    for p in ("/usr/local/go/bin", "/usr/local/bin"):
        if p not in e.get("PATH", "").split(":"):
            e["PATH"] = e.get("PATH", "") + ":" + p
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Build:
    """Builds the binaries a check needs, once each, in a scratch directory."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.done = {}
        self.notes = []
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(HARNESS, f), os.path.join(tmp, f))
        self.mod = "-modfile=" + os.path.join(tmp, "go.mod")
        r = sh(["go", "build", self.mod, "-o", tmp + "/instr", "./cmd/instr"])
        if r.returncode:
            raise NoVerdict("cannot build the instrumenter:\n" + r.stdout)

    def get(self, variant):
        """Returns (binary, overlay dir or None, instrumented)."""
        if variant not in self.done:
            self.done[variant] = self.make(variant)
        return self.done[variant]

    def make(self, variant):
        race = variant == "race"
        tries = [["-sync", "-gocalls"], ["-sync"], ["-sync", "-realtime"]] if variant == "sync" else []
        tries += [[], ["-realtime"]]
        out = os.path.join(self.tmp, "run_" + variant)
        last = ""
        for k, flags in enumerate(tries):
            d = os.path.join(self.tmp, "ovl_%s%d" % (variant, k))
            r = sh([self.tmp + "/instr", "-repo", REPO, "-out", d] + flags)
            if r.returncode == 0:
                r = sh(["go", "build", self.mod] + (["-race"] if race else []) + ["-overlay", d + "/overlay.json", "-o", out, "./cmd/run"])
                if r.returncode == 0:
                    if k:
                        self.notes.append("%s build only with: %s" % (variant, " ".join(flags) or "plain instrumentation"))
                    return out, d, ("sync" if "-sync" in flags else "plain")
            last = r.stdout
        r = sh(["go", "build", self.mod] + (["-race"] if race else []) + ["-o", out, "./cmd/run"])
        if r.returncode:
            raise NoVerdict("cannot build the monitors against the code under test:\n" + r.stdout)
        self.notes.append("%s build runs without instrumentation: %s" % (variant, last[-300:]))
        return out, None, False


FRAME = re.compile(r"^([\w./\-]+)\.[^\s]*\(")


def blames(stack):
    """Does the innermost frame that is not the runtime's or a library's belong
    to the code under test (possibly below its own libraries)?"""
    for line in stack.splitlines():
        if not line or line.startswith(("\t", " ")):
            continue
        s = line[len("created by "):] if line.startswith("created by ") else line
        if s.startswith(PKG):
            return True
        if s.startswith("main.") or (s.startswith("verifharness/") and not s.startswith("verifharness/vsched")):
            return False
    return False


def crash(stderr):
    """Explains a dead child: a message if the code under test is to blame."""
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*)$", stderr, re.M)
    if not m:
        return None
    rest = stderr[m.start():]
    gs = re.split(r"\n\n", rest)
    running = [g for g in gs if re.search(r"^goroutine \d+.*\[running", g, re.M)] or gs
    for g in running:
        body = "\n".join(g.split("\n"))
        if blames("\n".join(l for l in body.split("\n") if not re.match(r"^(goroutine|panic:|fatal error:|runtime:)", l))):
            return m.group(1)
    return None


def races(tmp, prefix):
    """Race reports: (those that involve the code under test, the others)."""
    mine, others = [], []
    for f in sorted(os.listdir(tmp)):
        if not f.startswith(prefix + "."):
            continue
        text = open(os.path.join(tmp, f), errors="replace").read()
        for block in re.split(r"={18,}", text):
            if "WARNING: DATA RACE" not in block:
                continue
            (mine if PKG + "." in block else others).append(block.strip())
    return mine, others


def where(block):
    """The two accesses of a race report in a line."""
    out = []
    for part in re.split(r"\n\s*\n", block):
        m = re.search(r"(Read|Write|Previous read|Previous write|Atomic.*|Previous atomic.*) at ", part)
        if not m:
            continue
        fn = re.search(r"\n\s+(" + re.escape(PKG) + r"\.\S+)\(\)", part) or re.search(r"\n\s+(\S+)\(\)", part)
        out.append("%s in %s" % (m.group(1).lower(), fn.group(1).replace(PKG + ".", "") if fn else "?"))
    return " / ".join(out)


def limits(variant):
    def f():
        os.setpgid(0, 0)
        if variant != "race":
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


GRACE = 15  # seconds the other shards go on after one has found a violation


def run_shard(prop, ph, k, b, tmp, tier, seed, only, found, nshards=NSHARDS):
    exe, ovl, instrumented = b
    mode = ph.mode
    if not instrumented:
        mode = "off"
    elif mode == "controlled" and instrumented != "sync":
        mode = "perturb"
    tag = "%s_%s" % (ph.name().replace("/", "_"), k)
    out = os.path.join(tmp, "rep_" + tag + ".json")
    cmd = [exe, "-prop", prop, "-part", ph.part, "-mode", mode, "-tier", tier, "-seed", str(seed), "-shard", str(k),
           "-nshards", str(nshards), "-out", out, "-scale", str(ph.scale[tier]), "-limit", "%ds" % LIMIT[tier], "-only", str(only)]
    if ovl:
        cmd += ["-dict", os.path.join(ovl, "dict.json")]
    e = env()
    e["GOTRACEBACK"] = "all"
    if ph.variant == "race":
        e["GORACE"] = "halt_on_error=0 history_size=3 log_path=" + os.path.join(tmp, "race_" + tag)
    if ph.procs:
        e["GOMAXPROCS"] = str(ph.procs)
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=tmp, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits(ph.variant))
    rc, since = None, None
    while rc is None:
        try:
            _, err = p.communicate(timeout=1)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            now = time.time()
            if found.is_set():
                since = since or now
            if now - t0 > LIMIT[tier] + 400 or (since and now - since > GRACE):
                os.killpg(p.pid, 9)
                _, err = p.communicate()
                rc = "stopped" if since else "timeout"
    err = err.decode("utf-8", "replace")
    rep, hashes = None, b""
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
            hashes = open(out + ".hash", "rb").read()
        except Exception as ex:  # noqa: BLE001
            err += "\nbad report: %s" % ex
    mine, others = races(tmp, "race_" + tag)
    res = dict(phase=ph, shard=k, rc=rc, err=err, rep=rep, hashes=hashes, races=mine, other_races=others, wall=time.time() - t0, mode=mode)
    if judge(res)[0]:
        found.set()
    return res


def judge(res):
    """(violations, problems) of one shard."""
    vs, probs = [], []
    rep, rc = res["rep"], res["rc"]
    if rep:
        for v in rep.get("violations") or []:
            vs.append(dict(case=v["case"], message=v["message"], witness=v.get("witness")))
        if rep.get("harness_error"):
            probs.append("harness error: " + rep["harness_error"][:3000])
    for r in res["races"]:
        vs.append(dict(case=-1, message="data race: " + where(r), witness=r))
    for r in res["other_races"][:3]:
        probs.append("data race outside the code under test:\n" + r[:3000])
    if rc == "stopped":
        return vs, probs
    if rc in (0, 4) or (rc == 66 and rep):
        if not rep:
            probs.append("no report")
    elif not (rep and (vs or rep.get("harness_error"))):
        c = crash(res["err"])
        if c:
            vs.append(dict(case=-1, message="the code under test brought the process down: " + c, witness=res["err"][:12000]))
        else:
            probs.append("child ended with %s:\n%s" % (rc, res["err"][-3000:]))
    return vs, probs


def known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^known: property=(\S+) signature=\"(.*?)\" (.*)$", line)
            if m:
                out.append(m.groups())
    return out


def main():
    if "--setup" in sys.argv:
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            b = Build(tmp)
            with ThreadPoolExecutor(3) as ex:
                list(ex.map(b.get, ["plain", "sync", "race"]))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & (2**63 - 1)
    except ValueError:
        seed = 1
    only, phases, replay = -1, [Phase(*p[0], **p[1]) for p in PHASES[prop]], None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier, seed, only = replay["tier"], replay["seed"], replay["case"]
        phases = [p for p in phases if p.name() == replay["phase"]]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    t0 = time.time()
    try:
        return check(prop, tier, seed, only, phases, replay, tmp, t0)
    except NoVerdict as ex:
        print("NO VERDICT property=%s %s" % (prop, ex))
        return 2
    except Exception:  # noqa: BLE001
        print("NO VERDICT property=%s the supervisor failed:\n%s" % (prop, traceback.format_exc()))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, only, phases, replay, tmp, t0):
    build = Build(tmp)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(build.get, sorted({p.variant for p in phases})))
    t_build = time.time() - t0
    results, violations, problems = [], [], []
    for ph in phases:
        b = build.get(ph.variant)
        shards = [replay["shard"]] if replay else range(NSHARDS)
        found = threading.Event()
        with ThreadPoolExecutor(NSHARDS) as ex:
            rs = list(ex.map(lambda k: run_shard(prop, ph, k, b, tmp, tier, seed, only, found), shards))
        results += rs
        for r in rs:
            vs, ps = judge(r)
            for v in vs:
                violations.append((r, v))
            problems += ps
        if violations:
            break

    ev = evidence(prop, tier, seed, results, build, t_build, t0, phases)
    rc = 0
    listed = [k for k in known() if k[0] == prop]
    fresh = []
    for r, v in violations:
        hit = [k for k in listed if k[1] in v["message"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
        else:
            fresh.append((r, v))
    ev["violations"] = len(fresh)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    seen = set()
    for r, v in fresh:
        if v["message"] in seen or len(seen) >= 3:
            continue
        seen.add(v["message"])
        rel = "evidence/replay/%s-%d-%d.json" % (prop, seed, len(seen))
        with open(os.path.join(VERIF, rel), "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, phase=r["phase"].name(), shard=r["shard"], case=v["case"],
                           message=v["message"], witness=v["witness"], again="python3 check.py %s --replay %s" % (prop, rel)), f, indent=1)
        print("%s: %s" % (prop, v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rel))
        rc = 1
    cov = ev["coverage"]
    if rc == 0:
        if problems:
            print("NO VERDICT property=%s %s" % (prop, "\n".join(problems)[:6000]))
            rc = 2
        elif not replay and (cov["evaluations"] < 50 or cov["distinct_nontrivial"] < 2):
            print("NO VERDICT property=%s too little was observed (%d evaluations, %d distinct cases; %s)" %
                  (prop, cov["evaluations"], cov["distinct_nontrivial"], ev.get("inconclusive")))
            rc = 2
    if not replay:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if rc == 0:
        print("%s held on %d evaluations, %d distinct cases (%.1f s)" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return rc


def evidence(prop, tier, seed, results, build, t_build, t0, phases):
    hashes, counters, samples, incon = set(), {}, [], []
    evals = cases = 0
    cut = False
    reached = {}
    per = {}
    for r in results:
        rep = r["rep"]
        if not rep:
            continue
        evals += rep["evaluations"]
        cases += rep["cases"]
        cut |= rep["cut_short"]
        name = r["phase"].name()
        d = per.setdefault(name, dict(mode=r["mode"], cases=0, evaluations=0, distinct=set(), counters={}, wall_s=0.0))
        d["cases"] += rep["cases"]
        d["evaluations"] += rep["evaluations"]
        d["wall_s"] = round(max(d["wall_s"], r["wall"]), 2)
        for k, v in (rep["counters"] or {}).items():
            d["counters"][k] = max(d["counters"].get(k, 0), v) if k.startswith("max:") else d["counters"].get(k, 0) + v
        for (h,) in struct.iter_unpack("<Q", r["hashes"]):
            hashes.add(h)
            d["distinct"].add(h)
        incon += rep["inconclusive"] or []
        samples += [(name, s) for s in rep["samples"] or []]
        reached.setdefault(r["phase"].variant, set()).update(rep["points"] or [])
    for d in per.values():
        d["distinct_nontrivial"] = len(d.pop("distinct"))
    cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=RULES[prop], samples=[dict(phase=n, case=s) for n, s in pick(samples)],
               cases=cases, phases=per)
    for variant, pts in reached.items():
        ovl = build.get(variant)[1]
        if not ovl:
            continue
        allp = json.load(open(os.path.join(ovl, "points.json")))
        files = {}
        missing = {}
        for i, p in enumerate(allp):
            if i == 0:
                continue
            f = files.setdefault(p["file"], [0, 0])
            f[1] += 1
            if i in pts:
                f[0] += 1
            else:
                missing.setdefault(p["file"], []).append(p["line"])
        cov["statements reached (%s build)" % variant] = {
            f: dict(reached=a, of=b, lines_not_reached=sorted(set(missing.get(f, [])))[:30]) for f, (a, b) in sorted(files.items()) if a}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2),
              build_s=round(t_build, 2), assumptions=ASSUMPTIONS.get(prop, ASSUMPTIONS["*"]))
    if incon:
        ev["inconclusive"] = incon[:20]
    if build.notes:
        ev["build_notes"] = build.notes
    if cut:
        ev["cut_short"] = "the time limit ended a shard before all its cases were run"
    return ev


def pick(samples, n=6):
    """A few samples, spread over the phases."""
    by = {}
    for name, s in samples:
        by.setdefault(name, []).append((name, s))
    out = []
    while len(out) < n and any(by.values()):
        for k in sorted(by):
            if by[k] and len(out) < n:
                out.append(by[k].pop(0))
    return out


if __name__ == "__main__":
    sys.exit(main())
