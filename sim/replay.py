"""python -m sim.replay FILE: run the plan of a replay file again on the current tree"""
import importlib, json, os, shutil, sys, tempfile
from sim import build as B
from sim.check import Pool, load_known


def main():
    doc = json.load(open(sys.argv[1]))
    prop = importlib.import_module("sim.props." + doc["property"].lower())
    scratch = tempfile.mkdtemp(prefix="pyscal-sim-")
    try:
        pkgdir, digest = B.build(os.path.join(scratch, "build"))
        pool = Pool(pkgdir, prop.ID, os.path.join(scratch, "work"), n=1)
        try:
            r = pool.ask(pool.workers[0], dict(n=0, plan=doc["plan"], keep_log=True, timeout=prop.TIMEOUT,
                                               known=[k for k in load_known() if k["property"] == prop.ID]))
        finally:
            pool.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for line in r.get("log") or []:
        print(line[:2000])
    print(r["status"], r.get("kind"), r.get("detail"))
    print("digest %s (recorded %s)%s" % (r.get("digest"), doc.get("digest"),
                                        "" if digest == doc.get("source_digest") else " on a different source tree"))
    if r["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (prop.ID, sys.argv[1]))
        return 1
    return 0 if r["status"] == "ok" else 2


if __name__ == "__main__":
    sys.exit(main())
