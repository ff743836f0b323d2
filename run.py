#!/usr/bin/env python3
"""run.py ID: decides one property from the current source of the repository.
Exit 0: holds on everything analysed. Exit 1 with a VIOLATION line: broken. Exit 2: no answer."""
import json, os, signal, sys, time, traceback
if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of exploration on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)


def known_findings():
    """[(property, site text)] of the entries that stand for findings that are not repaired"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property="):
                pid, _, rest = l[len("known: property="):].partition(" ")
                site, _, what = rest.strip().partition(" :: ")
                out.append((pid, site.strip(), what.strip()))
    return out


def main():
    pid = sys.argv[1]
    t = time.time()
    import properties
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import jobs
    jobs.limit(660 if tier == "quick" else 6000)
    try:
        r = properties.decide(pid, tier)
    except Exception:
        traceback.print_exc()
        print("no answer for %s" % pid)
        return 2
    jobs.UNTIL[0] = None
    signal.setitimer(signal.ITIMER_REAL, 0)
    known = known_findings()
    new, old = [], []
    for f in r.findings:
        for kp, site, what in known:
            if kp == pid and site in f.ident():
                old.append((f, what)); break
        else:
            new.append(f)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": r.level, "coverage": r.coverage(),
          "assumptions": r.assumptions, "wall_s": round(time.time() - t, 3), "violations": len(new)}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.json.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, os.path.join(d, pid + ".json"))
    for f, what in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, what or f.ident()))
    for f in r.undecided[:10]:
        print("undecided (not an alarm): %s" % f.text().replace("\n", "\n  "))
    print("%s: %s, %d obligations, %d discharged, %d violation(s), %.1f s" % (
        pid, r.headline, r.obligations, r.discharged, len(new), time.time() - t))
    if new:
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".txt")
        with open(path, "w") as f:
            for x in new:
                f.write(x.text() + "\n")
        for x in new[:5]:
            print(x.text())
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
