"""Development aid: runs all properties in one process on VERIF_DEV_REPO, stops at the first violation.
usage: anykill.py DIVISOR [first-properties...]"""
import os, sys, warnings
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get("VERIF_DEV_REPO", "/repo"), os.path.join(here, "..", "harness")]
warnings.simplefilter("ignore")
import core
core.CASE_CPU_LIMIT = 5.0
div = int(sys.argv[1])
first = sys.argv[2:]
try:
    core.lib()
    from registry import PROPERTIES
except BaseException as e:
    print("IMPORT", type(e).__name__, e); os._exit(1)
only = os.environ.get("ONLY")
order = first + ([] if only else [p for p in sorted(PROPERTIES) if p not in first])
code = 0
for pid in order:
    for f in PROPERTIES[pid].facets:
        # one shard of n: enumerated facets are sampled
        n = max(1, f.shards * div // 4) if f.strategy is not None else max(1, div)
        f.shrinkless = True
        try:
            r = core.run_shard(f, "quick", 7, 0, n)
        except BaseException as e:
            print("KILLED", pid, f.name, "crash", type(e).__name__); os._exit(1)
        if r.failure:
            print("KILLED", pid, f.name, r.failure[1][:160].replace("\n", " ")); os._exit(1)
        if r.error:
            print("ERROR", pid, f.name, r.error[-400:]); code = 2
if code == 0: print("SURVIVED")
sys.stdout.flush()
os._exit(code)
