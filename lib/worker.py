"""Runs a range of sessions of one profile in this process and writes the trace."""
import argparse, importlib, json, os, random, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import isl as I
import profiles


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--part", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--first", type=int)
    ap.add_argument("--last", type=int)
    ap.add_argument("--out")
    ap.add_argument("--prog")
    ap.add_argument("--tier", default="quick")
    a = ap.parse_args()
    lib = I.load()
    run = profiles.get(a.prop, a.part)
    prog = os.open(a.prog, os.O_RDWR | os.O_CREAT, 0o600)
    tot = {}
    with open(a.out, "a", buffering=1) as out:
        for i in range(a.first, a.last + 1):
            os.pwrite(prog, (json.dumps(i) + " session\n").encode().ljust(4000), 0)
            R = random.Random("%s/%s/%d/%d" % (a.prop, a.part, a.seed, i))
            st = run(lib, R, out, prog, a.prop, i, a.tier)
            for k, v in (st or {}).items():
                tot[k] = tot.get(k, 0) + v
    os.pwrite(prog, b"done".ljust(4000), 0)
    json.dump(tot, open(a.out + ".stats", "w"))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
