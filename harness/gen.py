"""Hypothesis strategies for case specs (plain JSON values)."""
import boot  # noqa: F401
import numpy as np
from hypothesis import strategies as st

import core
import oracles
from mesh import Mesh

LAYOUTS = ["C", "C", "C", "F", "S", "R"]


def lay(a, how):
    """the same array in another memory layout: Fortran order, strided view, read-only"""
    a = np.asarray(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "S":
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    a = a.copy()
    if how == "R":
        a.flags.writeable = False
    return a


# (hypothesis composites; every random choice is drawn here, derived data is a pure
# function of the drawn values)


@st.composite
def ints(draw, n, lo, hi, small=40):
    if n <= small:
        return draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))
    seed = draw(st.integers(0, 2**31 - 1))
    return [int(v) for v in np.random.default_rng(seed).integers(lo, hi + 1, n)]


@st.composite
def dims(draw, size, interior=False):
    """(nr, nc) with nr * nc >= 2"""
    if interior and draw(st.integers(0, 5)) > 0:
        hi = 7 if size != "large" else 14
        return draw(st.integers(3, hi)), draw(st.integers(3, hi))
    form = draw(st.sampled_from(["small", "small", "small", "medium", "strip", "strip"]))
    if size != "small" and draw(st.integers(0, 79)) == 79:
        # networks with more cells than a byte can count
        return draw(st.integers(15, 20)), draw(st.integers(18, 22))
    if form == "small" or size == "small":
        nr = draw(st.integers(1, 5))
        nc = draw(st.integers(2 if nr == 1 else 1, 5))
    elif form == "medium":
        nr, nc = draw(st.integers(3, 9)), draw(st.integers(3, 9))
        if size == "large":
            nr, nc = nr * 2, nc * 2
    else:
        nr = draw(st.integers(1, 2))
        nc = draw(st.integers(2, 30 if size != "large" else 120))
        if draw(st.booleans()):
            nr, nc = nc, nr
    return nr, nc


SPACINGS = [
    [10.0],
    [1.0],
    [3.0, 4.0],
    [3.0, 4.0, 5.0, 12.0],
    [0.5, 20.0],
    [30.0, 31.5],
    [100.0, 250.0],
    [0.001],
    [5000.0, 6000.5],
]


@st.composite
def mesh_spec(draw, kinds=("structured", "vertex", "unstructured"), size="normal", meshes=None, simple=False, interior=False):
    kind = draw(st.sampled_from(kinds))
    if kind == "structured":
        m = "rect"
    else:
        m = draw(st.sampled_from(meshes or ("rect", "tri", "quad", "jit", "vor", "vor", "hub", "ell")))
    spec = {"mesh": m, "kind": kind}
    if m == "vor":
        n = draw(st.sampled_from([5, 8, 12, 16, 25] + ([60] if size != "small" else [])))
        spec["n"] = n
        spec["seed"] = draw(st.integers(0, 10**6))
        ncell = n
    elif m == "hub":
        spec["k"] = draw(st.sampled_from([3, 5, 9, 17, 40] + ([130] if size == "large" else [])))
        spec["rings"] = draw(st.integers(1, 2))
        ncell = 1 + spec["k"] * spec["rings"]
    else:
        nr, nc = draw(dims(size, interior))
        pal = draw(st.sampled_from(SPACINGS))
        if len(pal) == 1 or simple or m == "ell":
            delr, delc = [pal[0]] * nc, [pal[-1]] * nr
        else:
            delr = [pal[i] for i in draw(ints(nc, 0, len(pal) - 1))]
            delc = [pal[i] for i in draw(ints(nr, 0, len(pal) - 1))]
        spec["delr"], spec["delc"] = delr, delc
        ncell = nr * nc
        if m == "jit":
            spec["jit"] = draw(ints(draw(st.sampled_from([2, 5, 7])), -20, 20))
        elif m == "tri":
            spec["flags"] = draw(ints(nr * nc, 0, 2))
            ncell += sum(1 for f in spec["flags"] if f)
        elif m == "ell":
            spec["flags"] = draw(ints(((nr + 1) // 2) * ((nc + 1) // 2), 0, 4))
            whole = [spec["flags"][r // 2 * ((nc + 1) // 2) + c // 2] for r in range(0, nr - 1, 2) for c in range(0, nc - 1, 2)]
            ncell -= 2 * sum(1 for f in whole if f)
        elif m == "quad":
            spec["flags"] = draw(ints(nr * nc, 0, 1))
            ncell += 3 * sum(spec["flags"])
        if m != "rect" or kind != "structured":
            if draw(st.integers(0, 5)) == 0:
                spec["xv"] = draw(ints(draw(st.sampled_from([2, 3, 5, 7])), 0, 3))
    if draw(st.integers(0, 3)) == 0:
        # cell sizes in degrees go with offsets in degrees
        small = max(spec.get("delr", [1.0])) < 0.01
        spec["off"] = draw(st.sampled_from([[-120.5, 39.25], [0.125, -0.5]] if small else [[100.0, 50.0], [-25.0, 3.0], [501000.0, 4200500.0]]))
    if draw(st.integers(0, 5)) == 0:
        spec["rot"] = draw(st.sampled_from([30.0, -15.0, 45.0, 90.0]))
    if kind != "structured" and ("off" in spec or "rot" in spec):
        spec["byframe"] = draw(st.booleans())
    if kind != "unstructured" and draw(st.integers(0, 4)) == 0:
        spec["nlay"] = draw(st.integers(2, 3))
    if kind != "structured":
        if draw(st.booleans()):
            if ncell <= 12:
                spec["perm"] = draw(st.permutations(range(ncell)))
            else:
                s = draw(st.integers(0, 2**31 - 1))
                spec["perm"] = [int(v) for v in np.random.default_rng(s).permutation(ncell)]
        if draw(st.integers(0, 5)) == 0:
            spec["closed"] = True
        if draw(st.integers(0, 5)) == 0:
            # cell centres that are not the centroids
            spec["cshift"] = draw(st.sampled_from([0.1, 0.3, -0.2]))
        if draw(st.integers(0, 5)) == 0:
            spec["ccw"] = draw(st.sampled_from([[1], [0, 1], [1, 0, 0], [0, 1, 1, 0, 1]]))
    if draw(st.integers(0, 5)) == 0:
        spec["idom"] = draw(ints(draw(st.integers(1, 5)), 0, 1))
    spec["ncell"] = ncell
    return spec


LEVELS = [0, 1, 1, 2, 3, 6, 20, 1000, 1000, 100000]


@st.composite
def relief(draw, n, levels=None):
    """integer relief"""
    L = draw(st.sampled_from(levels or LEVELS))
    z = draw(ints(n, 0, L))
    shape = draw(st.sampled_from(["noise", "noise", "noise", "ramp", "steps"]))
    if shape == "ramp":
        k = draw(st.integers(1, 3))
        z = [v + k * i for i, v in enumerate(z)]
    elif shape == "steps":
        k = draw(st.integers(2, 7))
        z = [v // 2 + (i // k) for i, v in enumerate(z)]
    return z


SCALES = [1.0, 1.0, 0.5, 0.1, 0.001, 0.0003, 25.0]
BASES = [0.0, 0.0, 2000.0, -50.0, 1234.5, -4321.0, -9999.0, 250000.0]


@st.composite
def elev(draw, n, levels=None, nan=0.0):
    d = {
        "z": draw(relief(n, levels)),
        "scale": draw(st.sampled_from(SCALES)),
        "base": draw(st.sampled_from(BASES)),
    }
    if draw(st.integers(0, 4)) == 0:
        # nearly tied elevations and slopes
        d["bumps"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([3e-6, -3e-6, 1e-5, -1e-4])),
                                   min_size=1, max_size=4))
    if nan and draw(st.floats(0, 1)) < nan:
        k = draw(st.integers(1, max(1, n // 2)))
        d["nan"] = sorted(set(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(k, 30)))))
    return d


def elev_array(d, more=0.0):
    z = d["base"] + d["scale"] * (np.array(d["z"], float) + more)
    for i, b in d.get("bumps", ()):
        z[i] += b
    for i in d.get("nan", ()):
        z[i] = np.nan
    return z


# --------------------------------------------------------------------- flow cases
FO_OPS = ["acc0", "acc1", "ws", "sub", "slope", "aspect", "hru_len", "vectors", "nidp", "strm"]


@st.composite
def past_spec(draw, n):
    """an earlier use of the flow direction and stream objects of a case"""
    return {
        "term": draw(st.lists(st.integers(0, n - 1), max_size=3)),
        "thr": draw(st.sampled_from([None, 1e-6, 0.0, 1e-3, 0.5, 10.0])),
        "ops": draw(st.lists(st.sampled_from(FO_OPS), max_size=4)),
        "mask": draw(st.integers(2, 7)),
        "group": draw(st.booleans()),
        "sops": draw(st.lists(st.integers(0, 5), max_size=3)),
    }


@st.composite
def flow_spec(draw, kinds=("structured", "vertex", "unstructured"), size="normal", meshes=None,
              conds=("strict", "strict", "flat"), nan=0.15, levels=None, multi=True):
    ms = draw(mesh_spec(kinds, size, meshes))
    n = ms["ncell"]
    e = draw(elev(n, levels, nan=nan))
    form = draw(st.sampled_from(["min", "min", "term", "term", "rc", "ties"] if multi else ["min"]))
    if form == "rc" and ms["kind"] != "structured":
        form = "term"
    k = 1 if form == "min" else draw(st.integers(1, 4))
    outs = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=k, unique=True))
    cond = draw(st.sampled_from(conds))
    spec = {"mesh": ms, "e": e, "form": form, "outs": outs, "cond": cond}
    if cond == "strict":
        spec["step"] = draw(st.sampled_from([1.0, 0.25, 0.01, 2e-6, 1.2e-6]))
    if draw(st.integers(0, 4)) == 0:
        # larger values only matter for climbs, a descending dem has none to follow
        spec["thr"] = draw(st.sampled_from([1e-6, 1e-9, 0.0] + ([1e-3, 0.3] if cond == "strict" else [])))
    spec["lay"] = draw(st.sampled_from(LAYOUTS))
    spec["omit"] = draw(st.booleans())
    if draw(st.integers(0, 5)) == 0:
        # taken when it holds the conditioned values exactly
        spec["dt"] = draw(st.sampled_from(["i8", "i4", "f4", "f2", ">f8"]))
    if form == "term" and draw(st.integers(0, 2)) == 0:
        spec["tform"] = draw(st.sampled_from(["np", "tuple", "twice"]))
    if draw(st.integers(0, 3)) == 0:
        spec["past"] = draw(past_spec(n))
    t = draw(st.sampled_from([None, None, None, "plane", "plane", "valley", "valley", "bowl"]))
    if t:
        spec["tilt"] = [t, draw(st.integers(-8, 8)), draw(st.integers(-8, 8)), draw(st.sampled_from([1, 4, 30]))]
    return spec


def tilt(spec, m):
    """large-scale relief from the cell coordinates, so that branching networks form"""
    if "tilt" not in spec:
        return 0.0
    form, a, b, k = spec["tilt"]
    x = (m.x - m.x.min()) / (np.ptp(m.x) or 1.0)
    y = (m.y - m.y.min()) / (np.ptp(m.y) or 1.0)
    if form == "valley":
        x = np.abs(x - 0.5)
    elif form == "bowl":
        x, y = np.abs(x - 0.5), np.abs(y - 0.4)
    return np.rint(4 * k * (a * x + b * y)) / 4


class Flow:
    """a conditioned DEM on a mesh: every (non NaN) cell has a descending (strict) or
    non-ascending (flat) path to one of the outlet cells"""

    def __init__(self, spec):
        self.spec = spec
        self.mesh = m = Mesh(spec["mesh"])
        core.BUDGET = max(4_000_000, 600 * m.n)
        z = elev_array(spec["e"], tilt(spec, m))
        outs = [int(o) for o in spec["outs"]]
        form = spec["form"]
        z[outs] = np.where(np.isnan(z[outs]), spec["e"]["base"], z[outs])
        lo = np.nanmin(z)
        if form == "ties":
            z[outs] = lo - 1.0
        else:
            z[outs[0]] = lo - 1.0
        # NaN walls: cells cut off from every outlet become NaN as well
        nanm = np.isnan(z)
        if nanm.any():
            reach = np.zeros(m.n, bool)
            reach[outs] = True
            stck = list(outs)
            while stck:
                c = stck.pop()
                for k in m.nb[c]:
                    if not reach[k] and not nanm[k]:
                        reach[k] = True
                        stck.append(k)
            z[~reach] = np.nan
            nanm = ~reach
        self.nan = nanm
        nb = [[] if nanm[i] else [k for k in m.nb[i] if not nanm[k]] for i in range(m.n)]
        self.nb = nb
        if spec["cond"] == "strict":
            w = oracles.epsfill(np.where(nanm, 0.0, z), nb, outs, spec["step"])
        else:
            w = oracles.minimax(np.where(nanm, 0.0, z), nb, outs)
        w[nanm] = np.nan
        self.z = w
        self.outs = outs
        self.term = sorted(outs)
        self.kw = {}
        if form == "term":
            self.kw["terminal_cells"] = {
                "np": [np.int64(o) for o in outs], "tuple": tuple(outs), "twice": list(outs) + list(outs[:1]),
            }.get(spec.get("tform"), list(outs))
        elif form == "rc":
            nc = m.shape[1]
            self.kw["terminal_cells"] = [(o // nc, o % nc) for o in outs]
        if "thr" in spec:
            self.kw["burn_threshold"] = spec["thr"]
        self.check_elev = form != "ties"

    def dem(self):
        z = self.z.reshape(self.mesh.shape)
        dt = self.spec.get("dt")
        if dt and (dt[0] != "i" or not np.isnan(z).any()):
            with np.errstate(all="ignore"):
                y = z.astype(dt)
            if np.array_equal(y.astype(float), z, equal_nan=True):
                z = y
        return lay(z, self.spec.get("lay", "C"))


def huge_flow(kind="structured", side=260):
    """a branching relief with more cells than a 16-bit number can count"""
    k = side * side
    return {
        "mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * side, "delc": [10.0] * side, "ncell": k},
        "e": {"z": [(i * 7919 + 31 * (i // side)) % 101 for i in range(k)], "scale": 0.1, "base": 50.0},
        "form": "min", "outs": [k - side // 2], "cond": "strict", "step": 0.01, "tilt": ["valley", 8, -6, 30], "huge": True,
    }


def huge_fill(side=260, kind="structured"):
    """pits and small lakes on a slope with more cells than a 16-bit number can count"""
    k = side * side
    z = [(i * 7919 + 31 * (i // side)) % 97 + 8 * (i // side) + 3 * (i % side) - 400 * (i % 1009 == 5) for i in range(k)]
    return {"mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * side, "delc": [10.0] * side, "ncell": k},
            "e": {"z": z, "scale": 0.1, "base": 50.0}, "dtype": "f8", "lay": "C"}


def big_flows(tier, n=300, side=22, kinds=("structured", "vertex", "unstructured"), huge=260, deep=1100):
    """long streams (outlet at either end or within) and a wide branching relief: sizes that
    the drawn cases do not reach; `deep`: rivers with more cells, and more confluences one
    after the other, than a recursive traversal can follow"""
    if tier == "thorough":
        n, side = 2 * n, 2 * side
    out = []
    for o in (0, n - 1, n // 3):
        kind = kinds[len(out) % len(kinds)]
        out.append({
            "mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * n, "delc": [5.0], "ncell": n},
            "e": {"z": [0] * n, "scale": 1.0, "base": 5.0}, "form": "min", "outs": [o], "cond": "strict", "step": 1.0,
        })
    for rows, w, o in [(r, w, o) for r, w in ((1, deep + 300), (2, deep)) for o in (0, w - 1)] if deep else ():
        out.append({
            "mesh": {"mesh": "rect", "kind": kinds[-rows % len(kinds)], "delr": [10.0] * w, "delc": [5.0] * rows, "ncell": rows * w},
            "e": {"z": [0] * w + [1000] * w * (rows - 1), "scale": 1.0, "base": 5.0}, "form": "min", "outs": [o], "cond": "strict",
            "step": 1.0, "deep": True,
        })
    k = side * side
    for kind in kinds:
        out.append({
            "mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * side, "delc": [10.0] * side, "ncell": k},
            "e": {"z": [(i * 7919 + 31 * (i // side)) % 101 for i in range(k)], "scale": 0.1, "base": 50.0},
            "form": "min", "outs": [side // 2], "cond": "strict", "step": 0.01, "tilt": ["valley", 8, -6, 30],
        })
    # two headwaters that join a long river
    w = n // 2
    out.append({
        "mesh": {"mesh": "rect", "kind": kinds[0], "delr": [10.0] * w, "delc": [5.0] * 3, "ncell": 3 * w},
        "e": {"z": [1000] * w + [0] * w + [1000] * w, "scale": 1.0, "base": 5.0}, "form": "min", "outs": [w], "cond": "strict", "step": 1.0,
        "ends": [w - 1, 3 * w - 1],
    })
    if "vertex" in kinds:
        # a lake with hundreds of neighbours, as the outlet and on the way to it
        for o in (0, 5):
            out.append({
                "mesh": {"mesh": "hub", "kind": kinds[-1] if o else "vertex", "k": n, "rings": 1, "ncell": n + 1},
                "e": {"z": [1] + [20] * n, "scale": 1.0, "base": 5.0}, "form": "min", "outs": [o], "cond": "strict", "step": 1.0,
                "ends": [7, 0],
            })
    if huge:
        out.append(huge_flow(kinds[0], huge))
        if tier == "thorough" and len(kinds) > 1:
            out.append(huge_flow(kinds[1], huge))
    return out
