"""C05-C09, C20, C24, C25: flow directions, accumulation, watersheds, geometry."""
import boot  # noqa: F401
import math
import os

import dany
import numpy as np
from hypothesis import strategies as st

import gen
import oracles
from core import Violation, call, check, same
from mesh import Mesh


def earlier(fo, m, past, outs=(), nan=None, grid=None):
    """earlier flow directions and calls on the same object, which must leave no trace"""
    term = sorted({int(c) for c in list(past["term"]) + list(outs) if nan is None or not nan[c]})
    kw = {} if past["thr"] is None else {"burn_threshold": past["thr"]}
    if term:
        kw["terminal_cells"] = term
    call("flow_directions() (earlier call)", fo.flow_directions, **kw)
    for op in past["ops"]:
        name = op + " (earlier call)"
        if op in ("acc0", "acc1"):
            call(name, fo.flow_accumulation, as_cells=op == "acc1")
        elif op == "ws":
            call(name, fo.get_watershed_boundary, m.pt(past["mask"] % m.n))
        elif op == "sub":
            call(name, fo.get_subbasins, [m.pt(past["mask"] % m.n)])
        elif op == "nidp":
            call(name, fo.get_nidp)
        elif op == "strm":
            if grid is not None:
                call("Sfr6 (earlier)", dany.Sfr6, grid, fo)
        else:
            call(name, lambda: getattr(fo, op))


def make_fo(flow, grid=None, fd=True, acc=None):
    g = flow.mesh.grid() if grid is None else grid
    dem = flow.dem()
    before = dem.copy()
    fo = call("FlowDirections()", dany.FlowDirections, g, dem, check_elevations=flow.check_elev)
    if fd:
        past = flow.spec.get("past")
        if past:
            earlier(fo, flow.mesh, past, flow.outs, flow.nan, g)
        kw = {k: (list(v) if isinstance(v, list) else v) for k, v in flow.kw.items()}
        call("flow_directions()", fo.flow_directions, **kw)
    if acc is not None:
        call("flow_accumulation()", fo.flow_accumulation, as_cells=acc)
    same("the dem passed to FlowDirections was changed", dem, before)
    return fo


def fdir_of(fo):
    return np.asarray(fo.flow_direction_array).ravel().astype(int)


def valid_fdir(flow, fd):
    """fd as a tree towards the outlets, or a violation: the later stages need it"""
    check(fd.size == flow.mesh.n, "flow direction array has {} values for {} cells", fd.size, flow.mesh.n)
    check(((fd >= 0) & (fd < flow.mesh.n)).all(), "flow direction outside of the grid: {}", fd[(fd < 0) | (fd >= flow.mesh.n)][:3])
    check(oracles.topo_order(fd) is not None, "flow directions of a conditioned dem contain a loop")


def steepest_ok(m, z, nb, c, to, info=None):
    sl = {k: oracles.slope_to(z, m.x, m.y, c, k) for k in nb}
    lo = min(sl.values())
    return to in sl and sl[to] <= lo + 1e-9 * abs(lo), lo


def flat_ok(m, z, fd, term, thr):
    """
    Cells without a lower neighbour: where some neighbour is level (or higher by less
    than the threshold) flow goes to such a neighbour or ends, and it neither ends nor
    loops while one of them leads to an outlet.
    """
    level, pits = {}, set()
    for c in range(m.n):
        if np.isnan(z[c]) or c in term:
            continue
        rise = {k: z[k] - z[c] for k in m.nb[c] if not np.isnan(z[k])}
        if not rise or min(rise.values()) < 0:
            continue
        if any(abs(v - thr) <= 1e-6 * thr + 1e-12 and v > 0 for v in rise.values()):
            # on the threshold
            pits.add(c)
            continue
        to = [k for k, v in rise.items() if v < thr or v == 0]
        if not to:
            pits.add(c)
            continue
        level[c] = to
        check(fd[c] == c or int(fd[c]) in to, "flat cell {} flows to {}, its level neighbours are {}", c, int(fd[c]), to)
    up = [[] for _ in range(m.n)]
    for c in range(m.n):
        if fd[c] != c:
            up[int(fd[c])].append(c)

    def above(cells):
        seen, todo = set(cells), list(cells)
        while todo:
            for k in up[todo.pop()]:
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        return seen

    drained, pitted = above(term), above(pits)
    for c, to in level.items():
        if c not in drained and c not in pitted:
            out = [k for k in to if k in drained]
            check(not out, "flow of the flat cell {} reaches no outlet, but its level neighbours {} do", c, out)
    return len(level)


# ------------------------------------------------------------------------- C05
@st.composite
def _steep_case(draw, size):
    ms = draw(gen.mesh_spec(size=size))
    n = ms["ncell"]
    e = draw(gen.elev(n, nan=0.25))
    c = {"mesh": ms, "e": e, "dtype": draw(st.sampled_from(["f8", "f8", "f8", "i8", "f4"]))}
    if draw(st.booleans()):
        c["term"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True))
        c["rc"] = ms["kind"] == "structured" and draw(st.sampled_from(["", "", "tuple", "list", "mixed"]))
    c["lay"] = draw(st.sampled_from(gen.LAYOUTS))
    if draw(st.booleans()):
        c["low"] = draw(st.integers(0, n - 1))
        if draw(st.integers(0, 3)) == 0:
            c["near"] = draw(st.integers(0, n - 1))
    if draw(st.integers(0, 3)) == 0:
        c["thr"] = draw(st.sampled_from([1e-6, 1e-3, 0.0, 0.5, 10.0]))
    if draw(st.integers(0, 5)) == 0:
        # differences on both sides of the default threshold
        c["e"]["scale"] = draw(st.sampled_from([3e-7, 8e-7, 5e-10]))
    if draw(st.integers(0, 2)) == 0:
        c["past"] = draw(gen.past_spec(n))
    return c


class Steepest:
    id = "C05"
    rule = (
        "random mesh and unconditioned elevations (ties, flats, sinks, NaN cells, terminal cells); "
        "non-trivial when at least one cell has two or more lower neighbours"
    )

    @staticmethod
    def strategy(tier):
        return _steep_case("large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        yield gen.huge_fill()
        yield dict(gen.huge_fill(), term=[40, 260 * 260 - 2], rc=True)

    @staticmethod
    def run(case, info):
        m = Mesh(case["mesh"])
        z = gen.elev_array(case["e"])
        if np.isnan(z).all():
            z[0] = case["e"]["base"]
        if "low" in case:
            z[case["low"]] = np.nanmin(z) - 3.0
            if "near" in case and case["near"] != case["low"]:
                # all but the lowest cell
                z[case["near"]] = np.nextafter(z[case["low"]], np.inf)
        if case["dtype"] == "f4":
            z = z.astype(np.float32)
        elif case["dtype"] == "i8" and not np.isnan(z).any():
            z = np.round(z).astype(np.int64)
        dem = gen.lay(z.reshape(m.shape), case.get("lay", "C"))
        z = z.astype(float)
        mins = np.where(z == np.nanmin(z))[0]
        if mins.size > 1:
            try:
                call("FlowDirections()", dany.FlowDirections, m.grid(), dem.copy(), _allow=AssertionError)
            except AssertionError:
                pass
            else:
                check(False, "FlowDirections accepted {} cells with the same minimum elevation", mins.size)
            fo = call("FlowDirections(check_elevations=False)", dany.FlowDirections, m.grid(), dem, check_elevations=False)
        else:
            fo = call("FlowDirections()", dany.FlowDirections, m.grid(), dem)
        kw = {}
        term = set(int(i) for i in mins)
        if "term" in case:
            term |= set(case["term"])
            kw["terminal_cells"] = list(case["term"])
            if case["rc"]:
                types = {"list": (list, list), "mixed": (list, tuple)}.get(case["rc"], (tuple, tuple))
                kw["terminal_cells"] = [types[i % 2]((t // m.shape[1], t % m.shape[1])) for i, t in enumerate(case["term"])]
        if "thr" in case:
            kw["burn_threshold"] = case["thr"]
        if case.get("past"):
            earlier(fo, m, case["past"])
        out = call("flow_directions()", fo.flow_directions, **kw)
        check(np.shape(out) == m.shape, "flow_directions returned shape {} for {}", np.shape(out), m.shape)
        same("flow_direction_array", fo.flow_direction_array, out)
        same("dem property", fo.dem, z.reshape(m.shape))
        same("the dem argument", np.asarray(dem, float), z.reshape(m.shape))
        if case.get("past"):
            new = call("FlowDirections()", dany.FlowDirections, m.grid(), dem, check_elevations=False)
            kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
            same("flow directions after earlier calls, and of a new object", out, call("flow_directions() (new object)", new.flow_directions, **kw))
        if case.get("thr") in (None, 1e-6):
            # the documented default
            kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
            new = call("FlowDirections()", dany.FlowDirections, m.grid(), dem, check_elevations=False)
            if kw.pop("burn_threshold", None) is None:
                kw["burn_threshold"] = 1e-6
            same("flow directions with and without the default burn_threshold of 1e-6", out, call("flow_directions() (default)", new.flow_directions, **kw))
        fd = np.asarray(out).ravel()
        multi = 0
        for c in range(m.n):
            to = int(fd[c])
            if np.isnan(z[c]) or c in term:
                check(to == c, "{} cell {} flows to {}", "NaN" if np.isnan(z[c]) else "terminal", c, to)
                continue
            nb = [k for k in m.nb[c] if not np.isnan(z[k])]
            lower = [k for k in nb if z[k] < z[c]]
            if not lower:
                continue
            ok, lo = steepest_ok(m, z, nb, c, to)
            check(to in nb, "cell {} flows to {}, which is not one of its neighbours {}", c, to, nb)
            check(ok, "cell {} flows to {} with slope {}, steepest descent is {}", c, to, oracles.slope_to(z, m.x, m.y, c, to), lo)
            multi += len(lower) > 1
        flats = flat_ok(m, z, fd, term, case.get("thr", 1e-6))
        info.nontrivial = multi > 0
        info.label(m.kind, m.spec["mesh"], "nan" if np.isnan(z).any() else "no_nan", "flats" if flats else "no_flats",
                   "ties_min" if mins.size > 1 else "unique_min", "term" if "term" in case else "no_term")


# ------------------------------------------------------------------------- C06
@st.composite
def _drain_case(draw, size):
    if draw(st.integers(0, 3)) == 0:
        c = draw(gen.flow_spec(size=size, nan=0.0, multi=False))
        c["pipe"] = draw(st.sampled_from(["priority", "complete", "drain"]))
        c["eps"] = draw(st.sampled_from([None, 1e-4, 0.5]))
        return c
    return draw(gen.flow_spec(size=size, conds=("flat", "flat", "strict"), levels=[0, 1, 1, 2, 3, 6, 1000]))


class Drains:
    id = "C06"
    rule = (
        "random mesh and relief conditioned towards 1-4 outlets by the reference fill (with flats or strictly "
        "descending) or by fill_sinks itself with boundary cells as terminal cells; non-trivial when the network "
        "has a path of three or more cells"
    )

    @staticmethod
    def strategy(tier):
        return _drain_case("large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        for kind in ("structured", "vertex"):
            for lv in (0, 1):
                n = 30 if tier == "quick" else 60
                yield {
                    "mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * n, "delc": [10.0] * n, "ncell": n * n},
                    "e": {"z": [(i * 7919 % 13) * lv for i in range(n * n)], "scale": 1.0, "base": 5.0},
                    "form": "min", "outs": [n * n // 2 + 3], "cond": "flat",
                }
        for out in (0, 700):
            yield {
                "mesh": {"mesh": "rect", "kind": "structured", "delr": [10.0] * 1300, "delc": [10.0], "ncell": 1300},
                "e": {"z": [0] * 1300, "scale": 1.0, "base": 5.0}, "form": "min", "outs": [out], "cond": "flat", "deep": True,
            }
        yield from gen.big_flows(tier)

    @staticmethod
    def run(case, info):
        if "pipe" in case:
            m = Mesh(case["mesh"])
            z0 = gen.elev_array(case["e"])
            kw = {} if case["eps"] is None else {"eps": case["eps"]}
            z = call("fill_sinks", dany.fill_sinks, m.grid(), z0.reshape(m.shape), method=case["pipe"], **kw)
            strict = case["pipe"] != "complete"
            fo = call("FlowDirections", dany.FlowDirections, m.grid(), z, check_elevations=False)
            z = np.asarray(z, float).ravel()
            term = set(m.edge) | set(np.where(z == z.min())[0].tolist())
            out = call("flow_directions", fo.flow_directions, terminal_cells=list(m.edge))
            nan = np.zeros(m.n, bool)
            nbs = m.nb
        else:
            flow = gen.Flow(case)
            m, z, nan, nbs = flow.mesh, flow.z, flow.nan, flow.nb
            strict = case["cond"] == "strict"
            term = set(flow.term)
            if not flow.check_elev:
                term |= set(np.where(z == np.nanmin(z))[0].tolist())
            fo = make_fo(flow)
            if not case.get("past"):
                fo = make_fo(flow, fd=False)
            out = call("flow_directions()", fo.flow_directions, **flow.kw)
        fd = np.asarray(out).ravel().astype(int)
        check(np.shape(out) == m.shape, "flow_directions returned shape {}", np.shape(out))
        for c in range(m.n):
            to = int(fd[c])
            if nan[c] or c in term:
                check(to == c, "{} cell {} flows to {}", "NaN" if nan[c] else "outlet", c, to)
                continue
            check(to in nbs[c], "cell {} flows to {}, which is not one of its (valid) neighbours", c, to)
            if strict:
                check(z[to] < z[c], "cell {} ({}) flows up to {} ({})", c, z[c], to, z[to])
            else:
                check(z[to] <= z[c], "cell {} ({}) flows up to {} ({})", c, z[c], to, z[to])
            ok, lo = steepest_ok(m, z, nbs[c], c, to)
            check(ok, "cell {} does not follow the minimum slope {}", c, lo)
        depth = np.zeros(m.n, int)
        order = oracles.topo_order(fd)
        check(order is not None, "flow directions contain a loop although every cell has a path to an outlet")
        for i in order:
            if fd[i] != i:
                depth[fd[i]] = max(depth[fd[i]], depth[i] + 1)
        info.nontrivial = bool(depth.max() >= 2)
        flats = any(z[k] == z[c] for c in range(m.n) if not nan[c] for k in nbs[c])
        info.label(m.kind, m.spec["mesh"], "pipe_" + case["pipe"] if "pipe" in case else case["form"] + "_" + case["cond"],
                   "flats" if flats else "no_flats", "nan" if nan.any() else "no_nan")


# ------------------------------------------------------------------------- C07
class Accumulation:
    id = "C07"
    rule = "random conditioned flow network; non-trivial when some cell has two or more inflows"

    @staticmethod
    def strategy(tier):
        return gen.flow_spec(size="large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        for n, kind in ((1500, "structured"), (300, "vertex"), (300, "unstructured")):
            yield {
                "mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * n, "delc": [5.0], "ncell": n},
                "e": {"z": [0] * n, "scale": 1.0, "base": 5.0},
                "form": "min", "outs": [n // 3], "cond": "strict", "step": 1.0,
            }
        yield from gen.big_flows(tier)

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        fo = make_fo(flow)
        fd = fdir_of(fo)
        valid_fdir(flow, fd)
        scale = float(max(np.abs(np.array(m.verts)).max(), 1.0)) ** 2
        at = 1e-14 * scale * 8
        area = np.asarray(fo.area)
        same("cell areas", area, m.area, tol=(at, 1e-9))
        ref_a = oracles.accumulate(fd, m.area)
        ref_c = oracles.accumulate(fd, np.ones(m.n))
        first = bool(case["outs"][0] % 2)
        for as_cells in (first, not first, first):
            kw = {} if case.get("omit") and not as_cells else {"as_cells": as_cells}
            acc = call("flow_accumulation", fo.flow_accumulation, **kw)
            check(np.shape(acc) == m.shape, "flow_accumulation returned shape {}", np.shape(acc))
            if as_cells:
                same("upslope cells", np.ravel(acc), ref_c)
            else:
                same("upslope area", np.ravel(acc), ref_a, tol=(at * m.n, 1e-9))
            same("flow_accumulation_array", fo.flow_accumulation_array, acc)
            sinks = [i for i in range(m.n) if fd[i] == i]
            tot = float(np.ravel(acc)[sinks].sum())
            exp = float(m.n if as_cells else m.area.sum())
            check(abs(tot - exp) <= 1e-9 * exp + at * m.n, "accumulation at the terminal cells is {}, the grid has {}", tot, exp)
        same("flow directions after accumulation", fdir_of(fo), fd)
        nid = call("get_nidp", fo.get_nidp)
        same("number of inflowing cells", nid, np.bincount(fd, minlength=m.n))
        info.nontrivial = bool(np.bincount(fd[fd != np.arange(m.n)], minlength=m.n).max() >= 2) if m.n > 1 else False
        info.label(m.kind, m.spec["mesh"], case["form"], case["cond"], "nan" if flow.nan.any() else "no_nan")


# ------------------------------------------------------------------------- C08 / C09
@st.composite
def _pts_case(draw, size, lo=1, hi=4):
    c = draw(gen.flow_spec(size=size))
    n = c["mesh"]["ncell"]
    k = draw(st.integers(lo, hi))
    pts = []
    for _ in range(k):
        w = draw(st.sampled_from(["any", "any", "any", "out", "zero"]))
        cell = draw(st.integers(0, n - 1)) if w == "any" else (c["outs"][draw(st.integers(0, len(c["outs"]) - 1))] if w == "out" else 0)
        pts.append([cell, draw(st.integers(0, 7)), draw(st.sampled_from([0, 0, 30, 60]))])
    c["pts"] = pts
    return c


def as_point(p, form):
    if form == "tuple":
        return tuple(p)
    if form == "array":
        return np.array(p)
    if form == "shapely":
        import shapely

        return shapely.Point(*p)
    if form == "flopy":
        from flopy.utils import geometry

        return geometry.Point(*p)
    if form == "shape":
        import shapefile

        return shapefile.Shape._from_geojson({"type": "Point", "coordinates": list(p)})
    return list(p)


class Watershed:
    id = "C08"
    rule = "random conditioned flow network and 1-4 pour points; non-trivial when a watershed has at least three cells and is not the whole grid"

    @staticmethod
    def strategy(tier):
        return _pts_case("large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        n = 1200
        yield {
            "mesh": {"mesh": "rect", "kind": "structured", "delr": [10.0] * n, "delc": [5.0], "ncell": n},
            "e": {"z": [0] * n, "scale": 1.0, "base": 5.0}, "pts": [[n // 2, 0, 0], [3, 1, 20]],
            "form": "min", "outs": [0], "cond": "strict", "step": 1.0,
        }
        for c in gen.big_flows(tier):
            yield dict(c, pts=[[c["mesh"]["ncell"] // 2, 0, 0], [c["outs"][0], 1, 20]])

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        fo = make_fo(flow)
        fd = fdir_of(fo)
        valid_fdir(flow, fd)
        for cell, fx, fy in case["pts"]:
            exp = np.zeros(m.n, int)
            up = sorted(oracles.upstream_of(fd, cell))
            exp[up] = 1
            got = call("get_watershed_boundary", fo.get_watershed_boundary, m.pt(cell, fx, fy))
            check(np.shape(got) == m.shape, "watershed has shape {}", np.shape(got))
            same(f"watershed of cell {cell}", np.ravel(got), exp)
            info.nontrivial |= 3 <= len(up) < m.n
            info.label("headwater" if len(up) == 1 else "basin")
        same("flow directions after watershed delineation", fdir_of(fo), fd)
        info.label(m.kind, m.spec["mesh"], case["form"], "nan" if flow.nan.any() else "no_nan")


def subbasin_reference(fd, cells):
    """nearest pour point downstream (itself included) of every cell, -1 if none"""
    s = set(cells)
    out = np.full(len(fd), -1)
    for c in range(len(fd)):
        for d in oracles.walk(fd, c):
            if d in s:
                out[c] = d
                break
    return out


class Subbasins:
    id = "C09"
    rule = "random conditioned flow network and 1-6 pour points (duplicates and nested points included); non-trivial when two pour points are nested"

    @staticmethod
    def strategy(tier):
        return _pts_case("large" if tier == "thorough" else "normal", 1, 6)

    @staticmethod
    def extra(tier):
        for c in gen.big_flows(tier):
            n = c["mesh"]["ncell"]
            a = [[n // 2, 0, 0], [c["outs"][0], 1, 20], [n - 2, 0, 0], [1, 0, 0]]
            yield dict(c, pts=a)
            yield dict(c, pts=a[::-1])
            if not c.get("huge"):
                # more subbasins than a byte can number
                yield dict(c, pts=[[(k * 7) % n, 0, 0] for k in range(min(n - 20, 300))])

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        fo = make_fo(flow)
        fd = fdir_of(fo)
        valid_fdir(flow, fd)
        cells = [p[0] for p in case["pts"]]
        pts = [m.pt(*p) for p in case["pts"]]
        keep = [list(p) for p in pts]
        got = call("get_subbasins", fo.get_subbasins, pts)
        check(pts == keep, "get_subbasins changed its points argument")
        check(np.shape(got) == m.shape, "subbasins have shape {}", np.shape(got))
        got = np.ravel(got)
        ref = subbasin_reference(fd, cells)
        ids = sorted(set(cells))
        num = {}
        for c in ids:
            num[c] = int(got[c])
        check(sorted(num.values()) == list(range(1, len(ids) + 1)),
              "pour point cells {} carry the numbers {}, expected 1..{} each once", ids, [num[c] for c in ids], len(ids))
        exp = np.array([num[r] if r >= 0 else 0 for r in ref])
        same("subbasin numbers", got, exp)
        nested = 0
        for c in ids:
            dn = [d for d in oracles.walk(fd, c)[1:] if d in num]
            if dn:
                nested += 1
                check(num[c] < num[dn[0]], "subbasin {} drains into subbasin {}, numbers must increase downstream", num[c], num[dn[0]])
        info.nontrivial = nested > 0
        info.label(m.kind, m.spec["mesh"], f"nested{min(nested, 3)}", "dup" if len(ids) < len(cells) else "nodup", "cell0" if 0 in ids else "nocell0")


# ------------------------------------------------------------------------- C20
class Geometry:
    id = "C20"
    rule = "random conditioned flow network; non-trivial when the network has at least three cells that are not terminal"

    @staticmethod
    def strategy(tier):
        return gen.flow_spec(size="large" if tier == "thorough" else "normal")

    @staticmethod
    def extra(tier):
        return gen.big_flows(tier)

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m, z = flow.mesh, flow.z
        fo = make_fo(flow)
        fd = fdir_of(fo)
        valid_fdir(flow, fd)
        scale = float(max(np.abs(np.array(m.verts)).max(), 1.0)) ** 2
        same("cell areas", fo.area, m.area, tol=(1e-13 * scale, 1e-9))
        slope = call("slope", lambda: fo.slope)
        aspect = call("aspect", lambda: fo.aspect)
        uv = call("vectors", lambda: fo.vectors)
        check(np.shape(slope) == m.shape, "slope has shape {}", np.shape(slope))
        check(np.shape(aspect) == m.shape, "aspect has shape {}", np.shape(aspect))
        es, ea = np.zeros(m.n), np.zeros(m.n)
        for c in range(m.n):
            d = int(fd[c])
            if d == c:
                continue
            drop = z[c] - z[d]
            es[c] = 0.0 if 0 < drop < 1e-6 else drop / m.dist(c, d)
            ea[c] = math.degrees(math.atan2(m.y[d] - m.y[c], m.x[d] - m.x[c])) % 360.0
        same("slope", np.ravel(slope), es, tol=(1e-12, 1e-9))
        a = np.ravel(aspect)
        check(((a >= 0) & (a <= 360)).all(), "aspect outside of 0..360")
        dif = np.abs((a - ea + 180.0) % 360.0 - 180.0)
        check((dif < 1e-6).all(), "aspect of cell {} is {}, expected {}", int(dif.argmax()), a[dif.argmax()], ea[dif.argmax()])
        u, v = np.ravel(uv[0]), np.ravel(uv[1])
        same("vectors u", u, np.cos(np.radians(ea)), tol=(1e-7, 0))
        same("vectors v", v, np.sin(np.radians(ea)), tol=(1e-7, 0))
        hl = np.ravel(call("hru_len", lambda: fo.hru_len))
        check(hl.size == m.n, "hru_len has {} values", hl.size)
        check((np.isfinite(hl) & (hl >= 0)).all(), "hru_len not finite")
        if not m.spec.get("closed"):
            up = oracles.upstream_sets(fd)
            tol = 1e-9 * math.sqrt(scale)
            for c in range(m.n):
                if fd[c] == c:
                    continue
                ds = []
                for k in [int(fd[c])] + up[c]:
                    sh = [m.verts[i] for i in m.polys[c] if i in set(m.polys[k])]
                    ds.append(math.hypot(np.mean([p[0] for p in sh]) - m.x[c], np.mean([p[1] for p in sh]) - m.y[c]))
                exp = 2.0 * float(np.mean(ds))
                check(abs(hl[c] - exp) <= tol + 1e-9 * exp, "hru_len of cell {} is {}, expected {}", c, hl[c], exp)
        same("flow directions after reading the properties", fdir_of(fo), fd)
        info.nontrivial = int((fd != np.arange(m.n)).sum()) >= 3
        info.label(m.kind, m.spec["mesh"], case["form"], case["cond"], "closed" if m.spec.get("closed") else "open")


# ------------------------------------------------------------------------- C24
PFORMS = ["tuple", "array", "shapely", "flopy", "shape", "list"]
CFORMS = ["tuples", "tupleoftuples", "array", "shapely", "multipoint", "geomcollection", "flopy", "collection",
          "shape", "shapes", "path", "pathlike", "reader"]
_shp = [0]


def as_collection(pts, form):
    import pathlib

    import shapefile
    import shapely
    from flopy.utils import geometry

    if form == "tuples":
        return [tuple(p) for p in pts]
    if form == "tupleoftuples":
        return tuple(tuple(p) for p in pts)
    if form == "array":
        return np.array(pts)
    if form == "shapely":
        return [shapely.Point(*p) for p in pts]
    if form == "multipoint":
        return shapely.MultiPoint(pts)
    if form == "geomcollection":
        return shapely.GeometryCollection([shapely.Point(*p) for p in pts])
    if form == "flopy":
        return [geometry.Point(*p) for p in pts]
    if form == "collection":
        return geometry.Collection([geometry.Point(*p) for p in pts])
    if form == "shape":
        return [as_point(p, "shape") for p in pts]
    if form == "shapes":
        s = shapefile.Shapes()
        for p in pts:
            s.append(as_point(p, "shape"))
        return s
    _shp[0] += 1
    base = os.path.join(boot.SCRATCH, f"pts_{os.getpid()}_{_shp[0] % 4}")
    with shapefile.Writer(base + ".shp", shapeType=1) as w:
        w.field("id", "N")
        for i, p in enumerate(pts):
            w.point(*p)
            w.record(i)
    if form == "path":
        return base + ".shp"
    if form == "pathlike":
        return pathlib.Path(base + ".shp")
    return shapefile.Reader(base + ".shp")


@st.composite
def _form_case(draw, size):
    c = draw(_pts_case(size, 1, 4))
    c["pform"] = draw(st.sampled_from(PFORMS))
    c["cform"] = draw(st.sampled_from(CFORMS))
    c["bad"] = draw(st.sampled_from([None, None, None, "xyz", "xyz", "x", "outside"]))
    c["bad_as"] = draw(st.sampled_from(["list", "tuple", "array"]))
    return c


def _rejects(what, fn, *a):
    try:
        call(what, fn, *a, _allow=Exception)
    except Violation:
        raise
    except Exception:  # noqa: BLE001
        return
    check(False, "{} did not raise", what)


class PointForms:
    id = "C24"
    rule = "random conditioned flow network, 1-4 points and one of the documented input types; non-trivial when two points lie in different cells or the watershed has two or more cells"

    @staticmethod
    def strategy(tier):
        return _form_case("normal")

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        grid = m.grid()
        fo = make_fo(flow, grid, acc=False)
        fd = fdir_of(fo)
        valid_fdir(flow, fd)
        pts = [m.pt(*p) for p in case["pts"]]
        cells = [p[0] for p in case["pts"]]
        pf, cf = case["pform"], case["cform"]
        up = oracles.upstream_of(fd, cells[0])
        exp = np.zeros(m.n, int)
        exp[sorted(up)] = 1
        got = call(f"get_watershed_boundary({pf})", fo.get_watershed_boundary, as_point(pts[0], pf))
        same(f"watershed of a point given as {pf}", np.ravel(got), exp)
        ref = subbasin_reference(fd, cells)
        got = np.ravel(call(f"get_subbasins({cf})", fo.get_subbasins, as_collection(pts, cf)))
        num = {c: int(got[c]) for c in cells}
        check(sorted(num.values()) == list(range(1, len(num) + 1)), "subbasins of points given as {}: outlet numbers {}", cf, num)
        same(f"subbasins of points given as {cf}", got, np.array([num[r] if r >= 0 else 0 for r in ref]))
        strm = call("PrmsStreams()", dany.PrmsStreams, grid, fo)
        a = call("threshold_from_control_points(list)", strm.threshold_from_control_points, [list(p) for p in pts], threshold=1e12)
        b = call(f"threshold_from_control_points({cf})", strm.threshold_from_control_points, as_collection(pts, cf), threshold=1e12)
        same(f"threshold array of points given as {cf}", b, a)
        check((np.ravel(a)[cells] < 1e12).all(), "a control point cell keeps the background threshold")
        if case.get("bad"):
            p = list(pts[0])
            if case["bad"] == "outside":
                xy = np.array(m.verts)
                p = [float(xy[:, 0].max() + 7.0), float(xy[:, 1].min() - 3.0)]
            else:
                p = p + [1.0] if case["bad"] == "xyz" else p[:1]
            p = as_point(p, case["bad_as"])
            good = [] if case["bad_as"] == "array" else [as_point(x, case["bad_as"]) for x in pts]
            what = f"a point with {len(p)} coordinates" if case["bad"] != "outside" else "a point outside of the grid"
            _rejects(f"get_watershed_boundary({what})", fo.get_watershed_boundary, p)
            _rejects(f"get_subbasins({what})", fo.get_subbasins, good + [p])
            _rejects(f"threshold_from_control_points({what})", strm.threshold_from_control_points, good + [p])
            same("flow directions after rejected points", fdir_of(fo), fd)
            info.label("bad_" + case["bad"])
        info.nontrivial = len(set(cells)) > 1 or len(up) > 1
        info.label(m.kind, "p_" + pf, "c_" + cf)


# ------------------------------------------------------------------------- C25
@st.composite
def _frame_case(draw, size):
    c = draw(gen.flow_spec(size=size, conds=("strict",), levels=[1000, 100000, 20], nan=0.0))
    c["e"]["scale"], c["e"]["base"] = 1.0, 0.0
    c["e"].pop("bumps", None)  # not exact in binary
    c["step"] = draw(st.sampled_from([1.0, 0.25]))
    for k in ("off", "rot", "byframe"):
        c["mesh"].pop(k, None)
    c["dz"] = draw(st.sampled_from([0.0, 1024.0, -64.0, 3.0]))
    c["kz"] = draw(st.sampled_from([1.0, 2.0, 0.5, 8.0]))
    # cell sizes in degrees go with offsets in degrees
    small = max(c["mesh"].get("delr", [1.0])) < 0.01
    c["off"] = draw(st.sampled_from([[0.0, 0.0], [0.5, -0.25], [-120.5, 39.25]] if small else
                                    [[0.0, 0.0], [1024.0, -512.0], [500000.0, 4200000.0]]))
    c["rot"] = draw(st.sampled_from([0.0, 0.0, 90.0, 37.0, -120.0]))
    c["byframe"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["priority", "complete", "drain"]))
    return c


def unique_steepest(m, z, nbs, term, gap=1e-6):
    for c in range(m.n):
        if c in term or not nbs[c]:
            continue
        s = sorted(oracles.slope_to(z, m.x, m.y, c, k) for k in nbs[c])
        if s[0] >= 0 or (len(s) > 1 and s[1] - s[0] <= gap * abs(s[0])):
            return False
    return True


class Frame:
    id = "C25"
    rule = (
        "random mesh and relief; the same terrain in a shifted/rotated coordinate frame with elevations shifted and "
        "scaled by exact amounts; non-trivial when every cell has a unique steepest neighbour, so flow must be identical"
    )

    @staticmethod
    def strategy(tier):
        return _frame_case("large" if tier == "thorough" else "normal")

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        s2 = dict(case)
        s2["mesh"] = dict(case["mesh"], off=case["off"], rot=case["rot"], byframe=case["byframe"])
        m2 = Mesh(s2["mesh"])
        kz, dz = case["kz"], case["dz"]
        raw = gen.elev_array(case["e"])
        eps = 0.125
        w1 = call("fill_sinks", dany.fill_sinks, m.grid(), raw.reshape(m.shape), eps=eps, method=case["method"])
        w2 = call("fill_sinks (other frame)", dany.fill_sinks, m2.grid(), (raw * kz + dz).reshape(m.shape), eps=eps * kz, method=case["method"])
        same("filled elevations in another frame", np.ravel(w2), np.ravel(w1) * kz + dz)
        fo1 = make_fo(flow)
        z2 = flow.z * kz + dz
        fo2 = call("FlowDirections (other frame)", dany.FlowDirections, m2.grid(), z2.reshape(m.shape), check_elevations=flow.check_elev)
        call("flow_directions (other frame)", fo2.flow_directions, **flow.kw)
        fd1, fd2 = fdir_of(fo1), fdir_of(fo2)
        valid_fdir(flow, fd1)
        valid_fdir(flow, fd2)
        sc = 1e-14 * float(np.abs(np.array(m2.verts)).max()) ** 2 * 8
        same("areas in another frame", fo2.area, np.asarray(fo1.area), tol=(sc + 1e-9, 1e-9))
        if not unique_steepest(m, flow.z, flow.nb, set(flow.term)):
            info.label("ambiguous")
            return
        same("flow directions in another frame", fd2, fd1)
        a1 = call("flow_accumulation", fo1.flow_accumulation)
        a2 = call("flow_accumulation", fo2.flow_accumulation)
        same("accumulated area in another frame", a2, np.asarray(a1), tol=((sc + 1e-9) * m.n, 1e-9))
        same("slope in another frame", fo2.slope, np.asarray(fo1.slope) * kz, tol=(1e-9, 1e-6))
        nt = fd1 != np.arange(m.n)
        d = (np.ravel(fo2.aspect) - np.ravel(fo1.aspect) - case["rot"] + 180.0) % 360.0 - 180.0
        check((np.abs(d[nt]) < 1e-4).all(), "aspect does not rotate with the frame")
        tol = 1e-9 * float(np.abs(np.array(m2.verts)).max())
        same("hru_len in another frame", fo2.hru_len, fo1.hru_len, tol=(tol + 1e-9, 1e-6))
        cell = case["outs"][0]
        same("watershed in another frame", call("watershed", fo2.get_watershed_boundary, m2.pt(cell)),
             call("watershed", fo1.get_watershed_boundary, m.pt(cell)))
        info.nontrivial = True
        info.label(m.kind, m.spec["mesh"], "rot" if case["rot"] else "norot", "off" if case["off"][0] else "nooff")


PROPS = [Steepest, Drains, Accumulation, Watershed, Subbasins, Geometry, PointForms, Frame]
