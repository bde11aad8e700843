"""Replays a recorded failing input against the code in the working tree: python -m irvc.replay FILE"""
import sys, os, re, shutil
from .run import *


def main():
    path = sys.argv[1]
    m = re.search(r'^! property (\S+) contract (\S+) \((\S+)\)', open(path).read(), re.M)
    prop, con, cf = m.groups()
    work = os.path.join(ROOT, "work", "replay-%d" % os.getpid())
    try:
        b = Build(os.path.join(ROOT, "contracts", cf), work, os.path.join(ROOT, "work", "cache"))
        b.compile()
        b.link_ir()
        exe = b.native()
        c = os.path.join(work, "in")
        with open(path) as f, open(c, "w") as g:
            g.writelines(l for l in f if not l.startswith("!"))
        rc, out = run_native([exe, "replay", con, c], 120)
        print(out)
        return 1 if rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
