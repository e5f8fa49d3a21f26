"""Cases run again in an interpreter of their own with another string hash seed (the order of sets of strings)."""
import importlib
import json
import os
import subprocess
import sys

from mc.engine import HERE, Counter, Violation

SEEDS = {"quick": 16, "thorough": 64}


def tasks(tier):
    return [("hashing", n) for n in range(1, SEEDS[tier] + 1)]


def check(prop, n, c):
    """judge what cases(("hashed",), "quick") of the property lists with PYTHONHASHSEED=n"""
    p = subprocess.run([sys.executable, "-m", "mc.hashing", prop], cwd=HERE, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=str(n)))
    if p.returncode:
        raise OSError("no result: %s" % p.stderr[-2000:])
    r = json.loads(p.stdout.splitlines()[-1])
    c.transitions += r["transitions"]
    c.note("cases with other hash seeds", r["traces"])
    c.state("hash seed", n)
    if r["violation"]:
        raise Violation("with PYTHONHASHSEED=%d: %s" % (n, r["violation"]))


def main(prop):
    mod = importlib.import_module("mc.props." + prop.lower())
    c = Counter()
    bad = None
    for case in mod.cases(("hashed", ""), "quick"):
        try:
            mod.check(case, c)
        except Exception as e:  # noqa: BLE001
            bad = "%s for case %s" % (e, json.dumps(case))
            break
        c.traces += 1
    print(json.dumps(dict(transitions=c.transitions, traces=c.traces, violation=bad)))


if __name__ == "__main__":
    main(sys.argv[1])
