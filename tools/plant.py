"""Tries a planted bug in a scratch copy of /repo: does it apply, build, pass the
stable tests, does the demonstration pass without and fail with it, and which of
the given checks report it.

  plant.py SEEDED_ID [CHECK...]          (--notest: skip the test suite)
Runs in a private mount namespace in which the scratch copy appears as /repo."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"


def ns(copy, cmd, **kw):
    sh = "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)
    return subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    notest = "--notest" in sys.argv
    pid, checks = args[0], args[1:]
    d = os.path.join(V, "seeded", pid)
    meta = json.load(open(d + "/meta.json"))
    if not checks:
        checks = [meta["property"]]
    copy, bld = os.path.join(W, "plant-" + pid), os.path.join(W, "plantb-" + pid)
    for x in (copy, bld):
        shutil.rmtree(x, ignore_errors=True)
    res = dict(id=pid, property=meta["property"])
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        demo = os.path.join(W, "plantd-" + pid)
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=lambda s, n: [x for x in n if x.endswith((".diff", ".patch")) or x == "meta.json"])
        if "--nobase" not in sys.argv:
            subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
            p = ns(copy, "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % demo, timeout=400)
            res["demo_without"] = p.returncode
            if p.returncode:
                res["demo_out"] = (p.stdout + p.stderr)[-600:]
        p = subprocess.run(["git", "-C", copy, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if p.returncode:
            res["apply"] = p.stderr
            return res
        if notest:
            p = ns(copy, "bash /opt/vp/build.sh", timeout=600)
            res["build"] = p.returncode
            if p.returncode:
                res["out"] = p.stderr[-2000:]
                return res
        else:
            p = ns(copy, "bash /opt/vp/test.sh %s/_build/vp-out.json && python3 %s/tools/cmp_tests.py %s/_build/vp-out.json" % ("/repo", V, "/repo"), timeout=900)
            res["tests"] = p.returncode
            res["tests_out"] = p.stdout.strip().split("\n")[-1][:300]
            if p.returncode:
                res["err"] = p.stderr[-1500:]
        p = ns(copy, "bash %s/demo.sh" % demo, timeout=400)
        res["demo_with"] = p.returncode
        res["demo_msg"] = (p.stdout + p.stderr)[-300:]
        if os.path.isdir(V + "/.build"):
            shutil.copytree(V + "/.build", bld, symlinks=True)
        for c in checks:
            if c == "none":
                continue
            t = time.time()
            e = dict(os.environ, VP_REPO=copy, VP_BUILD=bld, VERIF_SEED="1", VP_EVID="0")
            p = subprocess.run([sys.executable, V + "/lib/check.py", c, "quick"], env=e, capture_output=True, text=True, cwd=V)
            v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION") or l.startswith("ERROR")]
            res["check " + c] = (p.returncode, round(time.time() - t), v[:2], p.stdout[-600:] if p.returncode else "")
        return res
    finally:
        for x in (copy, bld, os.path.join(W, "plantd-" + pid)):
            shutil.rmtree(x, ignore_errors=True)
        print(json.dumps(res, indent=1))


main()
