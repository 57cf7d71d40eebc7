"""C01-C04: hydrologic conditioning."""
import boot  # noqa: F401
import itertools

import dany
import numpy as np
from hypothesis import strategies as st

import gen
import oracles
from core import call, check, same
from mesh import Mesh

METHODS = ["priority", "complete", "drain"]


def _dtype(z, name):
    if name == "i8":
        return np.round(z).astype(np.int64)
    if name == "f4":
        return z.astype(np.float32)
    return z


@st.composite
def _fill_case(draw, size="normal", nan=0.0):
    ms = draw(gen.mesh_spec(size=size, interior=True))
    e = draw(gen.elev(ms["ncell"], nan=nan))
    return {
        "mesh": ms,
        "e": e,
        "method": draw(st.sampled_from(METHODS if not nan else METHODS[:2])),
        "eps": draw(st.sampled_from([None, None, 2e-6, 1e-4, 0.125, 1, 1.0, 0.0, 40.0])),
        "dtype": draw(st.sampled_from(["f8", "f8", "f8", "i8", "f4"])) if not nan else "f8",
        "flat": draw(st.booleans()),
        "lay": draw(st.sampled_from(gen.LAYOUTS)),
        "up": draw(st.integers(0, 4)) == 0,
    }


def _setup(case):
    m = Mesh(case["mesh"])
    z = _dtype(gen.elev_array(case["e"]), case.get("dtype", "f8"))
    dem = z.copy() if case.get("flat") else z.reshape(m.shape)
    return m, z.astype(float), gen.lay(dem, case.get("lay", "C"))


def _fill(m, dem, case, mask=None):
    kw = {}
    eps = case["eps"]
    if eps is not None:
        kw["eps"] = eps
    else:
        eps = 2e-6
    if mask is not None:
        kw["stream_mask"] = mask
    method = case["method"].upper() if case.get("up") else case["method"]
    before = dem.copy()
    mb = None if mask is None else mask.copy()
    w = call(
        f"fill_sinks(method={case['method']!r})",
        dany.fill_sinks, m.grid(), dem, method=method, **kw,
    )
    w = np.asarray(w)
    check(w.shape == before.shape, "fill_sinks returned shape {}, dem has {}", w.shape, before.shape)
    same("fill_sinks changed its dem argument", dem, before)
    if mask is not None:
        same("fill_sinks changed its stream_mask argument", mask, mb)
    return w.ravel().astype(float), eps


def serpentine(k, flip, step):
    """walls with a single winding corridor of k rows, its mouth at the grid boundary: the
    flood has to follow it cell by cell, in rows with or against the cell numbering"""
    nr, nc = 2 * k + 1, 2 * k + 3
    z = np.full((nr, nc), 10 * nr * nc)
    h = 0
    for r in range(k):
        row = 2 * r + 1
        cols = range(1, nc - 1) if r % 2 == 0 else range(nc - 2, 0, -1)
        for c in cols:
            z[row, c] = h
            h += step
        if r + 1 < k:
            z[row + 1, cols[-1]] = h
            h += step
    z[0, 1] = 0
    if flip:
        z = z[::-1, ::-1]
    return nr, nc, [int(v) for v in z.ravel()]


def serpentine_cases(tier):
    k = 6 if tier == "quick" else 10
    for kind in ("structured", "vertex"):
        for flip in (False, True):
            for step in (0, -1, 1):
                nr, nc, z = serpentine(k, flip, step)
                for method in METHODS:
                    yield {
                        "mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * nc, "delc": [10.0] * nr, "ncell": nr * nc},
                        "e": {"z": z, "scale": 1.0, "base": 100.0}, "method": method, "eps": 0.125, "dtype": "f8",
                    }


def trough_cases(tier):
    """a long trough that falls against the numbering of the cells: its flood surface recedes
    by about one cell per pass over the grid"""
    n = 420 if tier == "quick" else 1100
    for flip in (False, True):
        z = np.full((3, n), 50)
        z[1, 1:] = 1
        z[1, 0] = 60
        if flip:
            z = z[:, ::-1]
        for method in METHODS:
            yield {
                "mesh": {"mesh": "rect", "kind": "structured", "delr": [10.0] * n, "delc": [10.0] * 3, "ncell": 3 * n},
                "e": {"z": [int(v) for v in z.ravel()], "scale": 1.0, "base": 100.0}, "method": method, "eps": 0.001, "dtype": "f8",
            }


def huge_cases(tier):
    for kind in ("structured",) if tier == "quick" else ("structured", "vertex"):
        for method in METHODS:
            yield dict(gen.huge_fill(kind=kind), method=method, eps=0.001)


class FillDrains:
    id = "C01"
    rule = "random mesh, elevations and fill method; non-trivial when at least one cell was raised"

    @staticmethod
    def strategy(tier):
        return _fill_case("large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        yield from huge_cases(tier)
        yield from trough_cases(tier)
        yield from serpentine_cases(tier)

    @staticmethod
    def run(case, info):
        m, z, dem = _setup(case)
        w, eps = _fill(m, dem, case)
        meth = case["method"]
        check(np.isfinite(w).all(), "non-finite elevation after fill_sinks")
        low = np.where(w < z)[0]
        check(low.size == 0, "cell {} was lowered", low[:1])
        ch = [i for i in m.edge if w[i] != z[i]]
        check(not ch, "boundary cell {} was changed", ch[:1])
        ok = oracles.descends(w, m.nb, m.edge, strict=meth != "complete" and eps > 0)
        bad = np.where(~ok)[0]
        check(bad.size == 0, "cell {} has no descending path to the grid boundary after '{}' fill", bad[:1], meth)
        inner = m.n - len(m.edge)
        raised = int((w > z).sum())
        info.nontrivial = raised > 0
        info.label(meth, m.spec["mesh"], m.kind, case["dtype"], "interior>0" if inner else "interior=0",
                   "raised>=2" if raised > 1 else "raised<2")


def not_overfilled(z, w, ref, m, seeds, eps, slack, info):
    """'priority' adds eps per cell on the way through a depression, no more"""
    steps = m.n
    lv = np.unique(z[~np.isnan(z)])
    if lv.size < 2 or np.diff(lv).min() > 4 * eps * m.n + slack:
        # elevations apart from each other by more than all the additions
        k = oracles.steps_from_spill(z, ref, m.nb, seeds)
        if k is not None:
            steps = k
            info.label("steps_counted")
    top = ref + (eps + slack) * steps + slack
    bad = np.where(~np.isnan(z) & (w > top))[0]
    check(bad.size == 0, "cell {}: fill {} exceeds spill elevation {} by more than eps per cell", bad[:1], w[bad[:1]], ref[bad[:1]])


class FillMinimal:
    id = "C02"
    rule = "random mesh, elevations (one third with NaN cells) and fill method; non-trivial when at least one cell was raised"

    @staticmethod
    def strategy(tier):
        s = "large" if tier == "thorough" else "normal"
        return st.one_of(_fill_case(s), _fill_case(s), _fill_case(s, nan=1.0))

    @staticmethod
    def extra(tier):
        yield from huge_cases(tier)
        yield from trough_cases(tier)
        yield from serpentine_cases(tier)

    @staticmethod
    def run(case, info):
        m, z, dem = _setup(case)
        w, eps = _fill(m, dem, case)
        meth = case["method"]
        nan = np.isnan(z)
        same("NaN cells changed", np.isnan(w), nan)
        ref = oracles.minimax(z, m.nb, m.edge)
        v = ~nan
        if meth == "complete":
            same("'complete' fill vs spill elevation surface", w, ref)
        elif meth == "drain":
            ref2 = oracles.epsfill(z, m.nb, m.edge, eps)
            same("'drain' fill vs minimal draining surface", w, ref2, tol=(0, 1e-13))
        else:
            slack = 1e-12 * max(1.0, float(np.nanmax(np.abs(z))))
            check((w[v] >= ref[v] - slack).all(), "'priority' fill is below the spill elevation")
            not_overfilled(z, w, ref, m, m.edge, eps, slack, info)
            if not nan.any():
                # a cell above all its neighbours' need is untouched
                ref2 = oracles.epsfill(z, m.nb, m.edge, eps)
                dry = ref2 <= z  # already drains with slope eps per cell
                d2 = oracles.descends(z, m.nb, m.edge) & dry
                if dry.all():
                    ch = np.where(w != z)[0]
                    check(ch.size == 0, "cell {} changed in a dem that already drains", ch[:1])
                info.label("already_drained" if d2.all() else "has_sinks")
        if m.n < 2000:
            w2, _ = _fill(m, w.reshape(np.shape(dem)), case)
            same(f"filling a dem filled with '{meth}' again", w2, w, tol=(0, 0) if meth != "drain" else (0, 1e-13))
        info.nontrivial = bool((w[v] > z[v]).any())
        info.label(meth, m.spec["mesh"], m.kind, "nan" if nan.any() else "no_nan")


@st.composite
def _mask_case(draw, size):
    c = draw(_fill_case(size))
    n = c["mesh"]["ncell"]
    k = draw(st.sampled_from(["few", "few", "path", "many"]))
    if k == "few":
        mask = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True))
    elif k == "many":
        mask = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, min(n, 40) // 2), unique=True))
    else:
        mask = {"start": draw(st.integers(0, n - 1)), "turn": draw(gen.ints(draw(st.integers(1, 15)), 0, 7))}
    c["mask"] = mask
    c["mlay"] = draw(st.sampled_from(gen.LAYOUTS))
    c["mdtype"] = draw(st.sampled_from(["i8", "b", "f8", "num", "u1", "nan"]))
    return c


class StreamMaskFill:
    id = "C03"
    rule = "random mesh, elevations and stream mask (scattered cells or a connected walk); non-trivial when a cell was raised and the mask does not cover the grid"

    @staticmethod
    def strategy(tier):
        return _mask_case("large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        for c in huge_cases(tier):
            if c["method"] != "drain":
                n = c["mesh"]["ncell"]
                yield dict(c, mask=[n // 2 + i for i in range(150)] + [5, n - 7, n // 3], mlay="C", mdtype="i8")

    @staticmethod
    def run(case, info):
        m, z, dem = _setup(case)
        mk = case["mask"]
        if isinstance(mk, dict):
            cells = [mk["start"]]
            for t in mk["turn"]:
                nb = m.nb[cells[-1]]
                cells.append(nb[t % len(nb)])
            cells = sorted(set(cells))
        else:
            cells = sorted(mk)
        mask = np.zeros(m.n, {"b": bool, "f8": float, "u1": np.uint8}.get(case["mdtype"], int))
        # "num": numbered streams, as stream_array holds them
        mask[cells] = [1 + k % 9 for k in range(len(cells))] if case["mdtype"] == "num" else 1
        if case["mdtype"] == "nan":
            # land without data
            mask = np.where(np.isin(np.arange(m.n), cells), 1.0, np.nan)
        w, eps = _fill(m, dem, case, gen.lay(mask.reshape(dem.shape), case["mlay"]))
        if case["method"] == "complete":
            eps = 0.0
        strict = eps > 0
        low = np.where(w < z)[0]
        check(low.size == 0, "cell {} was lowered", low[:1])
        # stream cells: from low to high, a stream cell below all of its (two or more)
        # stream neighbours is raised to eps above the lowest of them
        exp = z.copy()
        inm = np.zeros(m.n, bool)
        inm[cells] = True
        raised = False
        for c in sorted(cells, key=lambda i: (z[i], i)):
            el = [exp[k] for k in m.nb[c] if inm[k]]
            if len(el) > 1 and min(el) > exp[c]:
                exp[c] = min(el) + eps
                raised = True
        same("stream cell elevations", w[cells], exp[cells], tol=(0, 1e-13))
        ok = oracles.descends(w, m.nb, cells, strict=strict)
        bad = np.where(~ok)[0]
        check(bad.size == 0, "cell {} has no descending path to the stream mask", bad[:1])
        ref = oracles.minimax(z, m.nb, cells)
        sl = 1e-12 * max(1.0, float(np.abs(z).max()))
        check((w >= ref - sl).all(), "filled elevation below the spill elevation towards the streams")
        if not raised:
            not_overfilled(z, w, ref, m, cells, eps, sl, info)
        else:
            zz = z.copy()
            zz[cells] = exp[cells]
            hi = max(float(exp[cells].max()), 0) if not len(cells) else float(exp[cells].max())
            top = np.maximum(ref, hi) + (eps + sl) * m.n
            check((w <= top).all(), "overfilled above the highest stream cell")
        info.nontrivial = bool((w > z).any()) and len(cells) < m.n
        info.label(case["method"], m.kind, "pit_stream" if raised else "no_pit_stream", "edge_in_mask" if inm[m.edge].any() else "interior_mask")


@st.composite
def _nan_case(draw, size):
    ms = draw(gen.mesh_spec(size=size))
    n = ms["ncell"]
    e = draw(gen.elev(n))
    k = draw(st.sampled_from(["one", "few", "many", "most", "all_but_one", "none"]))
    if k == "one":
        nan = [draw(st.integers(0, n - 1))]
    elif k == "few":
        nan = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 6), unique=True))
    elif k == "all_but_one":
        keep = draw(st.integers(0, n - 1))
        nan = [i for i in range(n) if i != keep]
    elif k == "none":
        nan = []
    else:
        b = draw(gen.ints(n, 0, 9))
        nan = [i for i in range(n) if b[i] >= (5 if k == "many" else 2)]
    e["nan"] = sorted(nan)
    return {"mesh": ms, "e": e, "method": draw(st.sampled_from(["mean", "median", "min", "max", None, "Mean", "MAX"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS))}


_STAT = {"mean": np.mean, "median": np.median, "min": np.min, "max": np.max}


class NanFill:
    id = "C04"
    rule = "random mesh, elevations and NaN pattern (none to all but one); non-trivial when a NaN cell was filled"

    @staticmethod
    def strategy(tier):
        return _nan_case("large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        c = gen.huge_fill()
        c["e"]["nan"] = [i for i in range(c["mesh"]["ncell"]) if i % 1013 == 9 or 20000 < i < 20009 or (i // 260 in (170, 171) and i % 260 in (2, 3))]
        for method in ("mean", "median"):
            yield dict(c, method=method)
        for shape in ((1, 400), (20, 20), (1300, 1)):
            n = shape[0] * shape[1]
            for keep in (0, n // 2 + 10, n - 1):
                for method in ("mean", "max"):
                    yield {
                        "mesh": {"mesh": "rect", "kind": "structured", "delr": [10.0] * shape[1], "delc": [5.0] * shape[0], "ncell": n},
                        "e": {"z": [i % 17 for i in range(n)], "scale": 1.0, "base": 5.0, "nan": [i for i in range(n) if i != keep]},
                        "method": method, "lay": "C", "deep": n > 1000,
                    }

    @staticmethod
    def run(case, info):
        m = Mesh(case["mesh"])
        z = gen.elev_array(case["e"])
        dem = gen.lay(z.reshape(m.shape), case["lay"])
        kw = {} if case["method"] is None else {"method": case["method"]}
        meth = (case["method"] or "mean").lower()
        w = call(f"fill_nan_values(method={meth!r})", dany.fill_nan_values, m.grid(), dem, **kw)
        same("fill_nan_values changed its dem argument", dem, z.reshape(m.shape))
        check(np.shape(w) == m.shape, "shape {} returned for {}", np.shape(w), m.shape)
        w = np.asarray(w, float).ravel()
        nan = np.isnan(z)
        same("elevations of cells that are not NaN", w[~nan], z[~nan])
        if nan.all():
            check(np.isnan(w).all(), "values invented for an all-NaN dem")
            return
        check(not np.isnan(w).any(), "cell {} is still NaN", np.where(np.isnan(w))[0][:1])
        stat = _STAT[meth]
        seen = set()
        for c in np.where(nan)[0]:
            c = int(c)
            if c in seen:
                continue
            comp, stck, rim = {c}, [c], set()
            while stck:
                i = stck.pop()
                for k in m.nb[i]:
                    if nan[k]:
                        if k not in comp:
                            comp.add(k)
                            stck.append(k)
                    else:
                        rim.add(k)
            seen |= comp
            lo, hi = min(z[k] for k in rim), max(z[k] for k in rim)
            tol = 1e-9 * max(1.0, abs(lo), abs(hi))
            for i in comp:
                check(lo - tol <= w[i] <= hi + tol, "cell {} = {} outside the range [{}, {}] of the cells around its gap", i, w[i], lo, hi)
                known = [k for k in m.nb[i] if not nan[k]]
                unk = [k for k in m.nb[i] if nan[k]]
                if len(unk) > 6:
                    continue
                for r in range(len(unk) + 1):
                    hit = False
                    for sub in itertools.combinations(unk, r):
                        vals = [z[k] for k in known] + [w[k] for k in sub]
                        if vals and abs(stat(vals) - w[i]) <= tol:
                            hit = True
                            break
                    if hit:
                        break
                else:
                    check(False, "cell {} = {} is not the {} of its available neighbours", i, w[i], meth)
            info.label("isolated" if len(comp) == 1 else "cluster")
        info.nontrivial = len(seen) > 0
        info.label(meth, m.kind, m.spec["mesh"])


PROPS = [FillDrains, FillMinimal, StreamMaskFill, NanFill]
