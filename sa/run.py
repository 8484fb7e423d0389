"""python3 -m sa.run ID: decide one property on /repo's current source."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def known(pid):
    """Lines 'known: property=<id> <text>' name violations that are recorded defects."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def strip_loc(m):
    """Drop line numbers so that a finding is named by what and where, not by line."""
    import re

    return re.sub(r":\d+", "", m)


def main(argv):
    sys.setrecursionlimit(20000)
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t = time.time()
    from .registry import runner

    viol, cov, und = runner(pid)(pid, tier)
    viol = sorted(set(viol))
    kn = known(pid)
    new, old = [], []
    for m in viol:
        (old if strip_loc(m) in kn else new).append(m)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = dict(cov)
    cov["violations"] = new
    cov["known_findings"] = old
    cov["undecided"] = und
    json.dump(
        {
            "property": pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": cov, "wall_s": round(time.time() - t, 2),
        },
        open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str,
    )
    for m in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, m))
    for u in und:
        print("UNDECIDED: property=%s %s" % (pid, u))
    if new:
        rep = os.path.join(ev, pid + ".violations.txt")
        with open(rep, "w") as f:
            f.write("\n".join(new) + "\n")
        for m in new:
            print("  " + m)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s (%.1f s)%s" % (pid, time.time() - t, ", partly undecided" if und else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
