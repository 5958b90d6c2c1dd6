"""Development aid: prove all harnesses of the named catalogue schemas (every property) and print what happened.
python3-vt tools/try_schema.py NAME..."""
import os
import sys
import tempfile
import time
from multiprocessing import Pool
sys.path[:0] = [os.path.join(os.path.dirname(__file__), "..", d) for d in ("spec", "engine")]
import driver as D
import catalogue as K


def main():
    if "S2S_RAND" in os.environ:
        K.CAT.clear()
        K.random_entries(*map(int, os.environ["S2S_RAND"].split(",")))
    names = sys.argv[1:] or list(K.CAT)
    with tempfile.TemporaryDirectory() as work, Pool(8) as pool:
        hdr = os.path.join(D.REPO, "include", "s2s.hpp")
        res = []
        for name, hn, ll, err, cls in pool.imap_unordered(D.compile_ir, [(n, D.variants(K.CAT[n]), "include", hdr, work) for n in names]):
            if ll is None:
                print(name, "COMPILE", cls, err[-1500:])
                continue
            for h in D.variants(K.CAT[name]):
                res.append(pool.apply_async(D.prove, ((name, h, "include", ll, None, time.time() + 600),)))
        tot = 0
        for r in res:
            r = r.get()
            tot += r.wall
            if r.status != "proved" or r.fails or r.wall > 8 or len(names) < 4:
                print(r.schema, "_".join(r.harness), r.status, r.why[:300], f"{r.disch}/{r.obl} paths={r.paths} {r.wall:.1f}s", r.fails[:3], flush=True)
        print("cpu %.0f s over %d harnesses" % (tot, len(res)))


main()
