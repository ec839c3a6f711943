"""Runs the checks of one property: model checking of the specification itself,
then conformance of the code built from /repo's working tree, by recording
sessions of real calls and having TLC decide whether each is a behaviour of the
specification.

  check.py PROPERTY quick|thorough
  check.py --replay FILE

Exit 0: held on everything explored.  1: VIOLATION.  3: the machinery failed."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, threading, queue, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
RUN = os.path.join(VERIF, ".run")
KNOWN = os.path.join(VERIF, "known-findings.txt")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
PY = sys.executable


class Infra(Exception):
    pass


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, rundir, env=None, workers=1, heap="2600m", timeout=800, extra=()):
    meta = os.path.join(rundir, "meta-%s-%s" % (module, os.urandom(4).hex()))
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfg] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.returncode, out, gen, dist


def judge(module, trace, prop, rundir):
    """-> list of rejected lines; raises Infra"""
    rc, out, gen, dist = tlc(module, "IslTrace.cfg" if module in ("IslTrace", "IslFunTrace") else "IslJudge.cfg", rundir, dict(VP_TRACE=trace, VP_PROP=prop))
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        keep = trace + ".tlc"
        open(keep, "w").write(out)
        raise Infra("TLC failed on %s (output kept in %s): %s" % (trace, keep, tail_error(out)))
    rej = [int(x) for x in re.findall(r'<<"REJECT", (\d+)', out)]
    return rej, gen, dist


def tail_error(out):
    m = re.search(r"Error: (.*?)(?:\n\n|The behavior|Finished|\Z)", out, re.S)
    return (m.group(1) if m else out)[-1500:]


# ---------------------------------------------------------------- workers
def worker(prop, part, seed, first, last, out, tier, limit, per_session=60):
    """record sessions first..last; every crash or hang becomes an event"""
    env = dict(B.ENV)
    env["PYTHONHASHSEED"] = "0"
    at, prog, crashes = first, out + ".prog", 0
    open(out, "w").close()
    stats = {}
    while at <= last:
        if os.path.exists(prog):
            os.unlink(prog)
        cmd = [PY, os.path.join(HERE, "worker.py"), "--prop", prop, "--part", part, "--seed", str(seed), "--first", str(at),
               "--last", str(last), "--out", out, "--prog", prog, "--tier", tier]
        errf = open(out + ".err", "w")
        p = subprocess.Popen(cmd, env=env, stdout=errf, stderr=errf, cwd=os.path.dirname(out))
        why, mark, t0 = None, "", time.time()
        while True:
            try:
                p.wait(timeout=0.5 if time.time() - t0 < 5 else 2)
                break
            except subprocess.TimeoutExpired:
                pass
            m = read_mark(prog)
            if m != mark:
                mark, t0 = m, time.time()
            elif time.time() - t0 > per_session:
                why = "hang"
                p.kill()
                p.wait()
                break
        errf.close()
        rc = p.returncode
        if rc == 0 and why is None:
            try:
                for k, v in json.load(open(out + ".stats")).items():
                    stats[k] = stats.get(k, 0) + v
            except OSError:
                pass
            break
        mark = read_mark(prog)
        err = open(out + ".err").read()[-3000:]
        if why is None and rc == 1 and "Traceback" in err:
            raise Infra("driver failed: " + err)
        if not mark.strip():
            raise Infra("driver did not start: rc %s %s" % (rc, err))
        crashes += 1
        s, ev = parse_mark(mark)
        fix_tail(out)
        with open(out, "a") as f:
            ev = dict(ev or {})
            f.write(json.dumps(dict(op="crash", was=ev.get("op", "?"), f=ev.get("f", "?"), a=ev.get("a", []), x=ev.get("x", {"z": 0}),
                                    pr=ev.get("pr", prop), why=why or signame(rc)), separators=(",", ":")) + "\n")
        at = s + 1
        if crashes > 40:
            break           # every one of them is a rejected event already
    for x in (prog, out + ".err", out + ".stats"):
        if os.path.exists(x):
            os.unlink(x)
    return stats


def signame(rc):
    try:
        return signal.Signals(-rc).name if rc < 0 else "exit %d" % rc
    except ValueError:
        return "exit %d" % rc


def read_mark(prog):
    try:
        return open(prog, errors="replace").read(4096)
    except OSError:
        return ""


def parse_mark(m):
    """'<session> <event prefix>' """
    m = m.split("\n")[0]
    if m.startswith("{"):
        d = json.loads(m)
        return d["s"], d
    k, _, rest = m.partition(" ")
    ev = None
    rest = rest.strip()
    if rest.startswith("{"):
        try:
            ev = json.loads(rest.rstrip(", ") + "}")
        except ValueError:
            mm = re.match(r'\{"op":"([^"]*)","f":"([^"]*)"', rest)
            ev = dict(op=mm.group(1), f=mm.group(2)) if mm else None
    return int(k), ev


def fix_tail(path):
    """a crash can leave half a line"""
    with open(path, "rb+") as f:
        f.seek(0, 2)
        n = f.tell()
        if n == 0:
            return
        k = min(n, 1 << 22)
        f.seek(n - k)
        d = f.read()
        i = d.rfind(b"\n")
        f.truncate(n - k + i + 1)


# ---------------------------------------------------------------- known findings
def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def key_of(ev, args):
    """identifies the failing input, not the property"""
    d = [ev.get("was", ev["op"]), ev.get("f"), ev.get("x"), [canon(a) for a in args]]
    return hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


def canon(v):
    if isinstance(v, dict) and isinstance(v.get("p"), list):
        v = dict(v)
        v["p"] = sorted(json.dumps(e) for e in v["p"])
    return v


def operands(lines, n):
    """the values of the operands of event n (1-based), as recorded"""
    ev = json.loads(lines[n - 1])
    i, vals, src = n - 1, {}, {}
    while i >= 0:
        e = json.loads(lines[i])
        if e["op"] == "session":
            break
        if e.get("r"):
            vals.setdefault(e["r"], e.get("v"))
            src.setdefault(e["r"], dict(op=e["op"], f=e.get("f"), x=e.get("x"), a=e.get("a")))
        i -= 1
    ses = json.loads(lines[i]) if i >= 0 else {}
    a = ev.get("a") or []
    return ev, ses, [vals.get(h) for h in a], [src.get(h) for h in a], n - 1 - i


# ---------------------------------------------------------------- the conformance part
class Part:
    """One generator and the trace specification that judges it."""

    def __init__(self, name, module, quick, chunk, quick_s=60, thorough=None, hang=60):
        self.name, self.module, self.quick, self.chunk = name, module, quick, chunk
        self.quick_s, self.thorough, self.hang = quick_s, thorough or quick * 12, hang


def run_part(prop, part, tier, seed, rundir, res, deadline):
    total = part.quick if tier == "quick" else part.thorough
    chunks = [(i, min(i + part.chunk, total)) for i in range(0, total, part.chunk)]
    lock = threading.Lock()

    def one(c):
        if time.time() > deadline:
            with lock:
                res["skipped"] += c[1] - c[0]
            return
        if len(res["rejects"]) > 40:
            return
        tr = os.path.join(rundir, "%s-%d.ndjson" % (part.name, c[0]))
        st = worker(prop, part.name, seed, c[0], c[1] - 1, tr, tier, 600, part.hang)
        rej, gen, dist = judge(part.module, tr, prop, rundir)
        lines = None
        bad = []
        if rej:
            lines = open(tr).read().split("\n")
            for n in rej:
                ev, ses, args, src, k = operands(lines, n)
                bad.append(dict(part=part.name, module=part.module, session=ses.get("s"), ev=ev, ses=ses, args=args, src=src, at=k,
                                key=key_of(ev, args)))
        nl = sum(1 for _ in open(tr))
        sample = None
        if c[0] == 0:
            sample = [l.strip()[:400] for l in list(open(tr))[:12]]
        with lock:
            res["sessions"] += c[1] - c[0]
            res["events"] += nl
            res["states"] += dist
            res["transitions"] += max(0, gen - 1)
            for k, v in st.items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            res["rejects"] += bad
            count_ops(tr, res["ops"])
            if sample:
                res["samples"] += sample[:3] + sample[-2:]
        if not os.environ.get("VP_KEEP"):
            os.unlink(tr)

    with ThreadPoolExecutor(NPROC) as pool:
        for f in [pool.submit(one, c) for c in chunks]:
            f.result()


def count_ops(tr, ops):
    for l in open(tr):
        m = re.search(r'"f":"(isl_[a-z0-9_]+)"', l[:400])
        if m:
            ops[m.group(1)] = ops.get(m.group(1), 0) + 1


def confirm(prop, r, seed, tier, rundir):
    """the session alone, in a fresh process, must be rejected again at the same place"""
    tr = os.path.join(rundir, "confirm-%s-%s.ndjson" % (r["part"], r["session"]))
    worker(prop, r["part"], seed, r["session"], r["session"], tr, tier, 600, 90)
    rej, g, d = judge(r["module"], tr, prop, rundir)
    lines = open(tr).read().split("\n")
    out = []
    for n in rej:
        ev, ses, args, src, k = operands(lines, n)
        out.append((key_of(ev, args), ev, k))
    os.unlink(tr)
    return out


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import plans
    plan = plans.PLANS[prop]
    rundir = os.path.join(RUN, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    res = dict(sessions=0, events=0, states=0, transitions=0, stats={}, rejects=[], ops={}, samples=[], skipped=0,
               models=[], notes=[])
    rc = 0
    try:
        B.build()
        for pre in plan.get("build", []):
            pre()
        if os.environ.get("VP_NOMC") is None:
            for m in plan.get("models", []):
                run_model(m, tier, rundir, res)
        deadline = t0 + (600 if tier == "quick" else plan.get("thorough_s", 3600))
        for part in plan["parts"]:
            run_part(prop, part, tier, seed, rundir, res, deadline)
        viol, kf = verdicts(prop, tier, seed, rundir, res)
    except (Infra, B.BuildError) as e:
        print("ERROR: %s" % e)
        sys.stdout.flush()
        return 3
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(rundir, ignore_errors=True)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for path, why in viol:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + why)
        rc = 1
    evidence(prop, tier, seed, plan, res, viol, kf, time.time() - t0)
    print("%s %s: %d sessions, %d events, %d states, %d model states, %.1fs, %s" % (
        prop, tier, res["sessions"], res["events"], res["states"], sum(m["states"] for m in res["models"]), time.time() - t0,
        json.dumps(res["stats"])))
    return rc


def run_model(m, tier, rundir, res):
    """a model-checking run on the specification alone.  Its failure is a failure of
    the machinery, not of the code."""
    module, cfg, kw = m
    if kw.get("tier") == "thorough" and tier != "thorough":
        return
    rc, out, gen, dist = tlc(module, cfg, rundir, kw.get("env"), workers=NPROC, heap="12g", timeout=kw.get("timeout", 600),
                             extra=kw.get("extra", ()))
    if rc != 0 or "No error has been found" not in out:
        raise Infra("the specification %s/%s fails its own check: %s" % (module, cfg, tail_error(out)))
    res["models"].append(dict(model=module, config=cfg, states=dist, generated=gen))


def verdicts(prop, tier, seed, rundir, res):
    kn = {k: w for p, k, w in known() if p == prop}
    viol, kf, seen = [], [], set()
    cands = []
    for r in res["rejects"]:
        if r["key"] in kn:
            kf.append(kn[r["key"]])
            continue
        if r["session"] in seen:
            continue
        seen.add(r["session"])
        cands.append(r)
    for r in cands[:4]:
        again = confirm(prop, r, seed, tier, rundir)
        if not again:
            res["notes"].append("a rejection in session %s of part %s did not repeat: %s" % (r["session"], r["part"], r["ev"].get("f")))
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, r["part"] or "main", r["session"]))
        json.dump(dict(property=prop, part=r["part"], module=r["module"], session=r["session"], seed=seed, tier=tier, key=r["key"],
                       event=r["ev"], header=r["ses"], operands=r["args"], sources=r["src"]), open(path, "w"), indent=1)
        ev = r["ev"]
        viol.append((path, "%s %s (session %s, event %d, key %s): %s" % (
            ev.get("was", ev["op"]), ev.get("f", ""), r["session"], r["at"], r["key"], json.dumps(ev)[:300])))
    if cands and not viol:
        raise Infra("rejections that did not repeat: %s" % res["notes"][:3])
    return viol, sorted(set(kf))


def replay(path):
    d = json.load(open(path))
    B.build()
    rundir = os.path.join(RUN, "replay-%d" % os.getpid())
    os.makedirs(rundir)
    try:
        again = confirm(d["property"], d, d["seed"], d["tier"], rundir)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    for k, ev, at in again:
        print("REJECT at event %d, key %s: %s" % (at, k, json.dumps(ev)[:2000]))
    return 1 if again else 0


def evidence(prop, tier, seed, plan, res, viol, kf, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(states=res["states"] + sum(m["states"] for m in res["models"]),
               transitions=res["transitions"] + sum(m["generated"] for m in res["models"]),
               traces_validated_against_impl=res["sessions"],
               samples=res["samples"][:12],
               events=res["events"], calls_per_function=dict(sorted(res["ops"].items())),
               models=res["models"], sessions_not_run=res["skipped"], generator=res["stats"],
               rejected=len(res["rejects"]))
    d = dict(property=prop, tier=tier, seed=seed, level=plan.get("level", "model_checking"), coverage=cov, wall_s=round(wall, 2),
             violations=len(viol), assumptions=plan.get("assumptions", []))
    if kf:
        d["coverage"]["known_findings"] = kf
    if res["notes"]:
        d["coverage"]["notes"] = res["notes"]
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
