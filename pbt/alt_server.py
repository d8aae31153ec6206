import ctypes
import json
import os
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot  # noqa: E402

block = sys.argv[1:]
ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with the process that asks
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # anything printed by the code under test stays out of the protocol
try:
    boot.install(block=block)
    failed = None
except Exception as e:  # noqa: BLE001
    failed = [type(e).__name__, str(e)]


def handlers():
    import numpy as np
    from pointpats import centrography, distance_statistics, geometry

    def A(x):
        return None if x is None else np.asarray(x, float)

    def mbc(pts):
        (x, y), r = centrography.minimum_bounding_circle(A(pts))
        return [float(x), float(y), float(r)]

    def knn(pts, metric, k):
        a = A(pts)
        tree = geometry.build_best_tree(a, metric)
        d, i = geometry.k_neighbors(tree, a, k)
        return [d.tolist(), i.tolist()]

    def dist(name, pts, **kw):
        for key in ("distances", "hull"):
            if key in kw:
                kw[key] = A(kw[key])
        if isinstance(kw.get("support"), list):
            kw["support"] = tuple(kw["support"]) if kw.pop("as_tuple", True) else A(kw["support"])
        from pbt.core import seed_everything

        seed_everything(kw.pop("seed", 0))
        s, v = getattr(distance_statistics, name)(A(pts), **kw)
        return [np.asarray(s).tolist(), np.asarray(v).tolist()]

    def entry(case, name, seed):
        from checks import X01

        return X01.values(name, case, seed)

    def loaded(data, what, reads):
        from checks import X07

        return X07.elsewhere(data, what, reads)

    def names():
        import pointpats

        return sorted(n for n in dir(pointpats) if not n.startswith("_"))

    return locals()


H = None if failed else handlers()
for line in sys.stdin:
    req = json.loads(line)
    if failed:
        r = {"err": failed}
    else:
        try:
            r = {"ok": H[req["fn"]](*req["args"], **req["kwargs"])}
        except Exception as e:  # noqa: BLE001
            r = {"err": [type(e).__name__, str(e)[:300]]}
    out.write(json.dumps(r) + "\n")
    out.flush()
