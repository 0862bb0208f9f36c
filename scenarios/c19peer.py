"""
C19: another process (other hash seed, other past, no simulation), which reads epochs from fresh datasets.
Requests and answers as lines. Removes the scratch directory when the parent is gone.
"""

import hashlib
import json
import os
import random
import shutil
import sys


def digest(x):
    """:return: digest of a read epoch"""
    return hashlib.sha1(repr(x).encode()).hexdigest()


def main():
    scr = sys.argv[1]
    inp, out = sys.stdin, os.fdopen(os.dup(1), "w")
    null = open(os.devnull, "w")
    sys.stdout = sys.stderr = null
    os.dup2(null.fileno(), 1)
    try:
        from scenarios import dsgrammar as g, dsbase, c19_history

        g.SCR = scr
        c19_history.import_all()
        from scenarios.common import silence

        silence()
        import numpy

        numpy.random.seed(99)
        random.seed(99)
        scn = c19_history.C19()
        while True:
            line = inp.readline()
            if not line:
                return
            r = json.loads(line)
            try:
                a = digest(dsbase.expected_epoch(lambda: scn.make(r["d"], r["shard"]), r["e"]["epoch"], r["e"].get("seq_list"), r["e"].get("seq_order")))
            except Exception as exc:
                a = "%s: %s" % (type(exc).__name__, exc)
            out.write(json.dumps(a) + "\n")
            out.flush()
    finally:
        shutil.rmtree(scr, ignore_errors=True)
        os._exit(0)


if __name__ == "__main__":
    main()
