"""setup: dependencies import and the mesh generator agrees with flopy (no dany code)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402,F401
import shutil  # noqa: E402

import hypothesis  # noqa: E402
import numpy as np  # noqa: E402
from mesh import Mesh  # noqa: E402

SPECS = [
    dict(mesh="rect", delr=[3, 4, 10], delc=[2, 5], kind="structured", nlay=2, off=[1000, 500], rot=30),
    dict(mesh="rect", delr=[3, 4, 10], delc=[2, 5], perm=[5, 4, 3, 2, 1, 0]),
    dict(mesh="tri", delr=[3, 4, 10], delc=[2, 5], flags=[0, 1, 2, 1, 0, 2]),
    dict(mesh="quad", delr=[3, 4, 10], delc=[2, 5], flags=[0, 1, 0, 1, 0, 0], rot=20, off=[5, 5], byframe=True),
    dict(mesh="jit", delr=[3, 4, 10], delc=[2, 5], jit=[10, -20, 5, 3, 17]),
    dict(mesh="ell", delr=[3] * 5, delc=[2] * 7, flags=[1, 2, 3, 4, 0, 4, 3, 2, 1, 1, 1, 1]),
    dict(mesh="hub", k=9, rings=2),
    dict(mesh="vor", seed=3, n=12),
]
n = 0
for spec in SPECS:
    for kind in ["structured"] if "kind" in spec else ["vertex", "unstructured"]:
        for closed in (False, True):
            m = Mesh(dict(spec, kind=kind, closed=closed))
            g = m.grid()
            nb = g.neighbors(method="queen", reset=True)
            assert [sorted(int(k) for k in nb[i]) for i in range(m.n)] == m.nb
            assert np.allclose(m.x, m._cx) and np.allclose(m.y, m._cy)
            for c in range(m.n):
                r = g.intersect(*m.pt(c, 1, 50))
                if isinstance(r, tuple):
                    r = r[-2] * m.shape[1] + r[-1]
                assert r == c
            n += 1
if boot.OWN_SCRATCH:
    shutil.rmtree(boot.SCRATCH, ignore_errors=True)
print(f"selftest: {n} grids, hypothesis {hypothesis.__version__}")
