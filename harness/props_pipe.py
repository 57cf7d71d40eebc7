"""C28 (the stages of a whole workflow agree) and C29 (clipping to a watershed)."""
import boot  # noqa: F401
import collections

import dany
import numpy as np
from hypothesis import strategies as st

import core
import gen
import oracles
from core import call, check, same
from mesh import Mesh
from props_flow import fdir_of, unique_steepest
from props_streams import _size


def fractal(m, seed, rough):
    """smooth relief with branching valleys: random lattices of rising resolution"""
    rng = np.random.default_rng(seed)
    x = (m.x - m.x.min()) / (np.ptp(m.x) or 1.0)
    y = (m.y - m.y.min()) / (np.ptp(m.y) or 1.0)
    z = np.zeros(m.n)
    k, amp = 2, 100.0
    while k <= 16:
        g = rng.uniform(-1, 1, (k + 1, k + 1))
        i, j = np.minimum((x * k).astype(int), k - 1), np.minimum((y * k).astype(int), k - 1)
        u, v = x * k - i, y * k - j
        z += amp * (g[i, j] * (1 - u) * (1 - v) + g[i + 1, j] * u * (1 - v) + g[i, j + 1] * (1 - u) * v + g[i + 1, j + 1] * u * v)
        k, amp = 2 * k, amp * rough
    return np.rint(z * 1024) / 1024 + rng.integers(0, 64, m.n) / 4096


@st.composite
def _pipe_case(draw, size):
    ms = draw(gen.mesh_spec(size=size))
    n = ms["ncell"]
    c = {"mesh": ms, "seed": draw(st.integers(0, 2**31 - 1)), "rough": draw(st.sampled_from([0.35, 0.5, 0.7]))}
    c["base"] = draw(st.sampled_from([0.0, 2000.0, -500.0]))
    c["gaps"] = draw(st.lists(st.integers(0, n - 1), max_size=3)) if draw(st.booleans()) else []
    c["nanm"] = draw(st.sampled_from(["mean", "median", "min", "max"]))
    c["mode"] = draw(st.sampled_from(["edge", "edge", "mask"]))
    c["method"] = draw(st.sampled_from(["priority", "priority", "drain"]))
    c["eps"] = draw(st.sampled_from([None, 1e-3, 0.25]))
    c["out"] = draw(st.integers(0, n - 1))
    c["pour"] = draw(st.sampled_from(["max", "max", "any"]))
    c["pts"] = draw(st.lists(st.integers(0, n - 1), min_size=0, max_size=3))
    c["k"] = draw(st.integers(1, 12))
    c["bnd"] = draw(st.sampled_from(["ws", "ws", "sub", "none"]))
    c["omit"] = draw(st.booleans())
    return c


def big_pipes(tier):
    s = 183
    yield {"mesh": {"mesh": "rect", "kind": "structured", "delr": [10.0] * s, "delc": [12.0] * s, "ncell": s * s}, "seed": 9, "rough": 0.5,
           "base": 0.0, "gaps": [40, 41, 20000], "nanm": "mean", "mode": "mask", "method": "priority", "eps": 0.001, "out": 3, "pour": "max",
           "pts": [s * s // 2, s * s // 3], "k": 60, "bnd": "ws", "omit": True}
    for kind in ("structured", "vertex", "unstructured"):
        for mode in ("edge", "mask"):
            s = 28 if tier == "quick" else 45
            yield {"mesh": {"mesh": "rect", "kind": kind, "delr": [10.0] * s, "delc": [12.0] * s, "ncell": s * s}, "seed": 5, "rough": 0.5,
                   "base": 0.0, "gaps": [40, 41], "nanm": "mean", "mode": mode, "method": "priority", "eps": None, "out": 3, "pour": "max",
                   "pts": [s * s // 2, s * s // 3], "k": 12, "bnd": "ws", "omit": True}


class Pipe:
    """raw relief -> gaps filled -> conditioned -> flow directions"""

    def __init__(self, case):
        self.mesh = m = Mesh(case["mesh"])
        core.BUDGET = max(4_000_000, 600 * m.n)
        self.grid = g = m.grid()
        z = case["base"] + fractal(m, case["seed"], case["rough"])
        gaps = sorted(set(case["gaps"]))
        if gaps and len(gaps) < m.n:
            z[gaps] = np.nan
            z = call("fill_nan_values", dany.fill_nan_values, g, z.reshape(m.shape), method=case["nanm"]).ravel()
        self.edge = list(m.edge)
        out = self.edge[case["out"] % len(self.edge)]
        kw = {} if case["eps"] is None else {"eps": case["eps"]}
        if case["mode"] == "mask":
            z[out] = z.min() - 1.0
            mask = np.zeros(m.shape, int)
            mask.ravel()[out] = 1
            kw["stream_mask"] = mask
        self.raw = z
        w = call("fill_sinks", dany.fill_sinks, g, z.reshape(m.shape), method=case["method"], **kw)
        self.dem = np.asarray(w, float).copy()
        self.z = self.dem.ravel()
        self.fo = fo = call("FlowDirections", dany.FlowDirections, g, self.dem.copy(), check_elevations=False)
        self.term = {int(i) for i in np.where(self.z == self.z.min())[0]}
        kw = {}
        if case["mode"] == "edge":
            self.term |= set(self.edge)
            kw["terminal_cells"] = list(self.edge)
        call("flow_directions", fo.flow_directions, **kw)
        self.fd = fdir_of(fo)
        check(((self.fd >= 0) & (self.fd < m.n)).all() and oracles.topo_order(self.fd) is not None, "flow directions of a conditioned dem contain a loop")
        self.acc = np.ravel(call("flow_accumulation", fo.flow_accumulation)).copy()
        self.num = np.ravel(call("flow_accumulation(as_cells)", fo.flow_accumulation, as_cells=True)).copy()
        self.pour = int(np.argmax(self.num)) if case["pour"] == "max" else case["out"]


def accumulate_links(n, down, load):
    """carry load along {cell: {cell: fraction}} (acyclic, self links end a path)"""
    load = np.array(load, float)
    deg = np.zeros(n, int)
    for u, d in down.items():
        for v in d:
            if v != u:
                deg[v] += 1
    st_ = [u for u in range(n) if deg[u] == 0]
    seen = 0
    end = 0.0
    while st_:
        u = st_.pop()
        seen += 1
        out = {v: f for v, f in down.get(u, {}).items() if v != u}
        if not out:
            end += load[u]
        for v, f in out.items():
            load[v] += load[u] * f
            deg[v] -= 1
            if deg[v] == 0:
                st_.append(v)
    return load, end, seen == n


class Balance:
    id = "C28"
    rule = (
        "random mesh and smooth random relief with gaps taken through the whole workflow (fill_nan_values, fill_sinks, flow directions, "
        "accumulation, watershed, subbasins, streams, cascades, irunbnd); non-trivial when the watershed has six or more cells and three or more stream cells"
    )

    @staticmethod
    def strategy(tier):
        return _pipe_case(_size(tier))

    @staticmethod
    def extra(tier):
        return big_pipes(tier)

    @staticmethod
    def run(case, info):
        p = Pipe(case)
        m, g, fo, fd, n = p.mesh, p.grid, p.fo, p.fd, p.mesh.n
        area = np.ravel(fo.area)
        tol = 1e-9 * float(area.sum()) + 1e-13 * float(max(np.abs(np.array(m.verts)).max(), 1.0)) ** 2 * n
        # accumulation at a point and its watershed
        ws = np.ravel(call("get_watershed_boundary", fo.get_watershed_boundary, m.pt(p.pour))) != 0
        check(int(ws.sum()) == p.num[p.pour], "{} cells are in the watershed of cell {}, {} accumulate there", int(ws.sum()), p.pour, p.num[p.pour])
        check(abs(area[ws].sum() - p.acc[p.pour]) <= tol, "watershed area {}, accumulated area {}", area[ws].sum(), p.acc[p.pour])
        ends = [c for c in range(n) if fd[c] == c]
        check(set(ends) == p.term, "flow ends in {}, the outlets are {}", ends[:8], sorted(p.term)[:8])
        check(p.num[ends].sum() == n and abs(p.acc[ends].sum() - area.sum()) <= tol, "{} of {} cells reach an outlet", p.num[ends].sum(), n)
        # subbasins add up to watersheds
        cells = sorted({p.pour, *case["pts"]})
        sub = np.ravel(call("get_subbasins", fo.get_subbasins, [m.pt(c) for c in cells]))
        for c in cells:
            w = np.ravel(call("get_watershed_boundary", fo.get_watershed_boundary, m.pt(c))) != 0
            check((sub[w] > 0).all(), "cells of the watershed of {} are in no subbasin", c)
            inner = sorted({int(sub[k]) for k in cells if w[k]})
            same(f"subbasins {inner} and the watershed of cell {c}", np.isin(sub, inner), w)
            check(p.num[c] == sum(int((sub == i).sum()) for i in inner), "subbasin sizes do not add up to the accumulation of cell {}", c)
        # streams of the basin
        bnd = {"ws": ws.astype(int), "sub": np.where(ws, sub, 0), "none": None}[case["bnd"]]
        bkw = {} if bnd is None else {"basin_boundary": bnd.reshape(m.shape)}
        act = np.ones(n, bool) if bnd is None else bnd != 0
        s6 = call("Sfr6", dany.Sfr6, g, fo)
        thr = min(case["k"], int(p.num[p.pour]))
        mask = call("delineate_streams", s6.delineate_streams, thr, **bkw).copy()
        on = np.ravel(mask) != 0
        check(on[p.pour], "the pour point with accumulation {} is no stream at a threshold of {}", p.num[p.pour], thr)
        check(not (on & ~act).any(), "stream cells outside of the basin")
        # accumulation along the reaches
        g6 = call("get_stream_connectivity", s6.get_stream_connectivity)
        num6 = np.ravel(s6.stream_array)
        cell6 = {int(num6[c]): int(c) for c in np.where(on)[0]}
        check(sorted(cell6) == list(range(1, int(on.sum()) + 1)), "{} stream cells are numbered {}", int(on.sum()), sorted(cell6)[:10])
        first = np.full(n, -1)  # first stream cell on the path of a cell
        for c in reversed(oracles.topo_order(fd)):
            first[c] = c if on[c] else (first[fd[c]] if fd[c] != c else -1)
        local = collections.Counter(int(v) for v in first if v >= 0)
        tot = {r: local[c] for r, c in cell6.items()}
        for rec in call("connectiondata", s6.connectiondata):
            r = rec[0] + 1
            for v in rec[1:]:
                if v < 0:
                    tot[-int(v) + 1] += tot[r]  # numbers increase downstream
        for r, c in cell6.items():
            check(tot[r] == p.num[c], "{} cells drain to reach {} along the connections, {} accumulate in its cell", tot[r], r, p.num[c])
        # segments and irunbnd
        s5 = call("Sfr2005", dany.Sfr2005, g, fo)
        sg = call("get_stream_connectivity", s5.get_stream_connectivity, mask)
        seg = np.ravel(s5.stream_array)
        iru = np.ravel(call("irunbnd", s5.irunbnd))
        tot = collections.Counter(int(v) for v in iru)
        check(tot[0] == n - sum(local.values()), "{} cells have no segment, {} drain to no stream", tot[0], n - sum(local.values()))
        for a in sorted(sg):
            if sg[a] and sg[a] != a:
                tot[int(sg[a])] += tot[int(a)]
        for a in sg:
            c = max((int(c) for c in np.where(seg == a)[0]), key=lambda c: p.num[c])
            check(tot[int(a)] == p.num[c], "{} cells drain to segment {} by irunbnd, {} accumulate at its end", tot[int(a)], a, p.num[c])
        if m.kind == "structured":
            rd, sd = call("reach_data", s5.reach_data), call("segment_data", s5.segment_data)
            check(len(rd) == int(on.sum()) and len(sd) == len(sg), "{} reaches and {} segments for {} stream cells and {}", len(rd), len(sd), int(on.sum()), len(sg))
            last = {}
            for rec in rd:
                last[int(rec["iseg"])] = int(rec["node"])
            for a, b in zip(sd["nseg"], sd["outseg"]):
                d = int(fd[last[int(a)]])
                check(int(b) == int(seg[d]), "segment {} ends in cell {} that flows to segment {}, outseg is {}", a, last[int(a)], seg[d], b)
        vec = call("create_stream_vectors", s5.create_stream_vectors)
        for a in vec:
            b = int(sg[a])
            if b and b in vec:
                same(f"end of vector {a} and start of vector {b}", np.array(vec[a][-1]), np.array(vec[b][0]))
        # cascades carry the basin to the outlet
        sp = call("PrmsStreams", dany.PrmsStreams, g, fo)
        for m2m in (False, True):
            kw = {} if case["omit"] and not m2m else {"many2many": m2m}
            up, dn, pct, _ = call("get_cascades", sp.get_cascades, mask, **bkw, **kw)
            down = collections.defaultdict(dict)
            for u, d, f in zip(up, dn, pct):
                down[int(u) - 1][int(d) - 1] = float(f)
            check(all(act[u] for u in down) and all(act[v] for d in down.values() for v in d), "a cascade leaves the basin")
            load, end, ok = accumulate_links(n, down, np.where(act, area, 0.0))
            check(ok, "cascades are circular")
            check(abs(end - area[act].sum()) <= tol, "an area of {} reaches the ends of the cascades, the basin has {}", end, area[act].sum())
            if not m2m:
                check(np.abs(load[act] - p.acc[act]).max() <= tol, "area carried by cascades differs from the accumulated area in cell {}",
                      int(np.argmax(np.abs(np.where(act, load - p.acc, 0)))))
        b = call("get_pygsflow_builder_object", sp.get_pygsflow_builder_object, mask, **bkw)
        check(b.nreaches == int(on.sum()) and b.nsegments == len(sg), "builder counts {} reaches and {} segments, expected {} and {}", b.nreaches, b.nsegments, int(on.sum()), len(sg))
        same("dem after the workflow", fo.dem, p.dem)
        info.nontrivial = int(ws.sum()) >= 6 and int(on.sum()) >= 3
        info.label(m.kind, m.spec["mesh"], case["mode"], case["bnd"], "gaps" if case["gaps"] else "no_gaps")


# ------------------------------------------------------------------------- C29
class Clip:
    id = "C29"
    rule = (
        "random mesh and smooth random relief, the flow of the whole grid compared with the flow of the terrain clipped (no data) to the "
        "watershed of a point; non-trivial when the watershed has four or more cells, is not the whole grid and every cell in it has a unique steepest neighbour"
    )

    @staticmethod
    def strategy(tier):
        return _pipe_case(_size(tier))

    @staticmethod
    def extra(tier):
        for c in big_pipes(tier):
            yield dict(c, pour="any", out=c["mesh"]["ncell"] // 2)

    @staticmethod
    def run(case, info):
        p = Pipe(case)
        m, g, fo, fd, n = p.mesh, p.grid, p.fo, p.fd, p.mesh.n
        ws = np.ravel(call("get_watershed_boundary", fo.get_watershed_boundary, m.pt(p.pour))) != 0
        z = np.where(ws, p.z, np.nan)
        nbs = [[k for k in m.nb[c]] if ws[c] else [] for c in range(n)]
        info.label(m.kind, case["mode"])
        if not unique_steepest(m, p.z, nbs, p.term | {p.pour}):
            info.label("ambiguous")
            return
        # the point ends the flow on both terrains
        call("flow_directions", fo.flow_directions, terminal_cells=sorted(p.term | {p.pour}))
        exp = fd.copy()
        exp[p.pour] = p.pour
        same("flow directions with the point as another terminal cell", fdir_of(fo), exp)
        fd = exp
        for cells in (True, False):
            acc = np.ravel(call("flow_accumulation", fo.flow_accumulation, as_cells=cells))
            same("accumulation upstream of another terminal cell", acc[ws], (p.num if cells else p.acc)[ws], tol=(1e-9 * float(p.acc.max()), 0))
        g2 = m.grid()
        fo2 = call("FlowDirections (clipped)", dany.FlowDirections, g2, z.reshape(m.shape), check_elevations=False)
        call("flow_directions (clipped)", fo2.flow_directions, terminal_cells=[p.pour])
        fd2 = fdir_of(fo2)
        exp = np.where(ws, fd, np.arange(n))
        same("flow directions in the clipped terrain", fd2, exp)
        num = np.ravel(call("flow_accumulation (clipped)", fo2.flow_accumulation, as_cells=True)).copy()
        same("upslope cells in the clipped terrain", num[ws], p.num[ws])
        check((num[~ws] == 1).all(), "cells without data accumulate flow")
        acc = np.ravel(call("flow_accumulation (clipped)", fo2.flow_accumulation)).copy()
        tol = 1e-13 * float(max(np.abs(np.array(m.verts)).max(), 1.0)) ** 2 * n
        same("upslope area in the clipped terrain", acc[ws], p.acc[ws], tol=(tol, 1e-9))
        same("watershed in the clipped terrain", np.ravel(call("get_watershed_boundary (clipped)", fo2.get_watershed_boundary, m.pt(p.pour))) != 0, ws)
        for name in ("slope", "aspect", "hru_len"):
            a, b = (np.ravel(call(name, lambda f=f: getattr(f, name))) for f in (fo, fo2))
            same(f"{name} in the clipped terrain", b[ws], a[ws], tol=(1e-9, 1e-9))
        pts = [c for c in case["pts"] if ws[c]]
        if pts:
            a, b = (np.ravel(call("get_subbasins", f.get_subbasins, [m.pt(c) for c in pts])) for f in (fo, fo2))
            same("subbasins in the clipped terrain", b, np.where(ws, a, 0))
        # streams: cells above the threshold in the basin, on both terrains
        call("flow_accumulation", fo.flow_accumulation, as_cells=True)
        call("flow_accumulation (clipped)", fo2.flow_accumulation, as_cells=True)
        thr = max(2, min(case["k"], int(p.num[p.pour])))
        res = []
        for grid, f in ((g, fo), (g2, fo2)):
            out = {}
            s = call("Sfr6", dany.Sfr6, grid, f)
            b = None if case["omit"] and f is fo2 else ws.reshape(m.shape).astype(int)
            mask = call("delineate_streams", s.delineate_streams, thr, **({} if b is None else {"basin_boundary": b})).copy()
            out["mask"] = mask.ravel() != 0
            if not out["mask"].any():
                return
            call("get_stream_connectivity", s.get_stream_connectivity)
            num = np.ravel(s.stream_array)
            at = {int(num[c]): int(c) for c in np.where(num)[0]}
            cd = call("connectiondata", s.connectiondata)
            out["links"] = sorted((at[r[0] + 1], at[-int(v) + 1]) for r in cd for v in r[1:] if v < 0)
            pk = call("packagedata", s.packagedata)
            out["len"] = {at[int(r["ifno"]) + 1]: (float(r["rlen"]), float(r["rtp"]), int(r["ncon"])) for r in pk}
            for group in (True, False):
                s = call("Sfr2005", dany.Sfr2005, grid, f)
                sg = call("get_stream_connectivity", s.get_stream_connectivity, mask, group_segments=group)
                seg = np.ravel(s.stream_array)
                mem = {int(a): frozenset(int(c) for c in np.where(seg == a)[0]) for a in sg}
                out[f"seg{group}"] = {(tuple(sorted(mem[int(a)])), tuple(sorted(mem.get(int(b), ())))) for a, b in sg.items()}
                ib = np.ravel(call("irunbnd", s.irunbnd))
                out[f"iru{group}"] = {c: tuple(sorted(mem[int(ib[c])])) for c in np.where(ws)[0] if ib[c]}
            res.append(out)
        a, b = res
        same("stream cells in the clipped terrain", b["mask"], a["mask"])
        for k in ("links", "segTrue", "segFalse", "iruTrue", "iruFalse"):
            check(a[k] == b[k], "{} differ in the clipped terrain", {"l": "reach connections", "s": "segments", "i": "irunbnd"}[k[0]])
        for c, v in a["len"].items():
            same(f"length, elevation and connections of the reach in cell {c}", np.array(b["len"][c]), np.array(v), tol=(1e-9, 1e-9))
        info.nontrivial = 4 <= int(ws.sum()) < n


PROPS = [Balance, Clip]
