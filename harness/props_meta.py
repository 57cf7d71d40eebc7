"""C18 (grid representation / cell numbering) and C19 (history independence)."""
import boot  # noqa: F401
import collections

import dany
import numpy as np
from hypothesis import strategies as st

import gen
import oracles
from core import Violation, call, check, same
from mesh import Mesh
from props_flow import fdir_of, make_fo, unique_steepest, valid_fdir
from props_streams import CLS, DTYPES, _size, mask_array, mask_of, mask_spec, ref_segments


# ------------------------------------------------------------------------- C18
@st.composite
def _rep_case(draw, size):
    c = draw(gen.flow_spec(size=size, conds=("strict",), levels=[1000, 100000, 20, 6],
                           kinds=("structured", "vertex", "unstructured")))
    ms = c["mesh"]
    n = ms["ncell"]
    ms.pop("perm", None)
    c["step"] = draw(st.sampled_from([1.0, 0.25]))
    other = [k for k in ("structured", "vertex", "unstructured") if ms["mesh"] == "rect" or k != "structured"]
    c["kind2"] = draw(st.sampled_from(other))
    if c["kind2"] == "structured":
        ms.pop("cshift", None)
        ms.pop("xv", None)
    p = None
    if c["kind2"] != "structured" and draw(st.integers(0, 3)) > 0:
        if n <= 12:
            p = draw(st.permutations(range(n)))
        else:
            s = draw(st.integers(0, 2**31 - 1))
            p = [int(v) for v in np.random.default_rng(s).permutation(n)]
    c["perm2"] = p
    c["closed2"] = draw(st.integers(0, 4)) == 0
    c["mask"] = draw(mask_spec(n))
    c["pts"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
    c["group"] = draw(st.booleans())
    c["m2m"] = draw(st.booleans())
    c["hole"] = draw(st.integers(0, n - 1))
    c["nanm"] = draw(st.sampled_from(["mean", "median", "min", "max"]))
    return c


def cell_graph(arr, graph):
    """reach graph expressed by cells"""
    arr = np.ravel(arr)
    inv = {int(v): c for c, v in enumerate(arr) if v}
    check(len(inv) == int((arr != 0).sum()), "reach numbers are not unique")
    out = {}
    for r, t in graph.items():
        check(r in inv and (t == 0 or t in inv), "graph entry {} -> {} names no reach", r, t)
        out[inv[int(r)]] = None if t == 0 else inv[int(t)]
    return out


class Representation:
    id = "C18"
    rule = (
        "random mesh and conditioned relief given as two grid types with permuted cell numbers; non-trivial when every "
        "cell has a unique steepest neighbour (flow must be identical) and the two representations differ"
    )

    @staticmethod
    def strategy(tier):
        return _rep_case(_size(tier))

    @staticmethod
    def run(case, info):
        fa = gen.Flow(case)
        a = fa.mesh
        n = a.n
        perm = case["perm2"] or list(range(n))  # new cell i is old cell perm[i]
        new = {o: i for i, o in enumerate(perm)}
        s2 = dict(case["mesh"], kind=case["kind2"])
        s2.pop("closed", None)
        if case["perm2"]:
            s2["perm"] = perm
        if case["closed2"] and case["kind2"] != "structured":
            s2["closed"] = True
        b = Mesh(s2)
        P = np.array(perm)
        zb = fa.z[P]

        def to_a(v):
            """array over the cells of b -> order of a"""
            out = np.empty_like(np.ravel(v))
            out[P] = np.ravel(v)
            return out

        # conditioning
        raw = gen.elev_array(case["e"])
        w1 = call("fill_sinks", dany.fill_sinks, a.grid(), raw.reshape(a.shape), method="complete")
        w2 = call("fill_sinks", dany.fill_sinks, b.grid(), raw[P].reshape(b.shape), method="complete")
        same("complete fill on the other grid", to_a(w2), np.ravel(w1))
        hole = raw.copy()
        hole[np.isnan(hole)] = 0.0
        hole[case["hole"]] = np.nan
        if n > 1:
            f1 = call("fill_nan_values", dany.fill_nan_values, a.grid(), hole.reshape(a.shape), method=case["nanm"])
            f2 = call("fill_nan_values", dany.fill_nan_values, b.grid(), hole[P].reshape(b.shape), method=case["nanm"])
            same("filled no-data cell on the other grid", to_a(f2), np.ravel(f1), tol=(1e-9, 1e-9))
        # flow
        fo1 = make_fo(fa, acc=True)
        kw2 = dict(fa.kw)
        if "terminal_cells" in kw2:
            kw2["terminal_cells"] = [new[o] for o in fa.outs]
        g2 = b.grid()
        fo2 = call("FlowDirections()", dany.FlowDirections, g2, zb.reshape(b.shape), check_elevations=fa.check_elev)
        call("flow_directions()", fo2.flow_directions, **kw2)
        fd1, fd2 = fdir_of(fo1), fdir_of(fo2)
        valid_fdir(fa, fd1)
        check(fd2.size == n and ((fd2 >= 0) & (fd2 < n)).all(), "flow direction outside of the grid")
        check(oracles.topo_order(fd2) is not None, "flow directions on the other grid contain a loop")
        sc = 1e-14 * float(np.abs(np.array(a.verts)).max()) ** 2 * 8
        same("areas on the other grid", to_a(fo2.area), fo1.area, tol=(sc, 1e-9))
        if not unique_steepest(a, fa.z, fa.nb, set(fa.term)):
            info.label("ambiguous")
            return
        same("flow directions on the other grid", to_a(P[fd2]), fd1)
        a1 = call("flow_accumulation", fo1.flow_accumulation, as_cells=True)
        a2 = call("flow_accumulation", fo2.flow_accumulation, as_cells=True)
        same("accumulation on the other grid", to_a(a2), np.ravel(a1))
        # the cell centres of the two grids differ by rounding
        ex = float(max(np.abs(to_a(b.x) - a.x).max(), np.abs(to_a(b.y) - a.y).max()))
        dmin = min((a.dist(i, k) for i in range(n) for k in a.nb[i]), default=1.0)
        same("slope on the other grid", to_a(fo2.slope), np.ravel(fo1.slope), tol=(1e-9, 1e-9 + 8 * ex / dmin))
        da = np.abs((to_a(fo2.aspect) - np.ravel(fo1.aspect) + 180.0) % 360.0 - 180.0)
        check((da < 1e-6 + 500 * ex / dmin).all(), "aspect differs on the other grid by {}", da.max())
        if not (s2.get("closed") or case["mesh"].get("closed")):
            same("hru_len on the other grid", to_a(fo2.hru_len), np.ravel(fo1.hru_len), tol=(1e-9 * (1 + sc) * 1e3, 1e-7))
        for c in case["pts"]:
            p1 = call("get_watershed_boundary", fo1.get_watershed_boundary, a.pt(c))
            p2 = call("get_watershed_boundary", fo2.get_watershed_boundary, b.pt(new[c]))
            same(f"watershed of cell {c} on the other grid", to_a(p2), np.ravel(p1))
        sb1 = np.ravel(call("get_subbasins", fo1.get_subbasins, [a.pt(c) for c in case["pts"]]))
        sb2 = to_a(call("get_subbasins", fo2.get_subbasins, [b.pt(new[c]) for c in case["pts"]]))
        lut = {}
        for u, v in zip(sb1, sb2):
            check(lut.setdefault(int(u), int(v)) == int(v) and (u == 0) == (v == 0), "subbasins differ on the other grid")
        # streams
        ga = a.grid()
        fo1b = make_fo(fa, ga, acc=True)
        mask = mask_of(case["mask"], fd1)
        m1 = mask_array(case["mask"], mask, a.shape)
        m2 = mask_array(case["mask"], mask[P], b.shape)
        s1 = call("PrmsStreams()", dany.PrmsStreams, ga, fo1b)
        s2_ = call("PrmsStreams()", dany.PrmsStreams, g2, fo2)
        g1 = cell_graph(*_conn(s1, m1, False))
        gb = cell_graph(*_conn(s2_, m2, False))
        got = {perm[k]: (None if v is None else perm[v]) for k, v in gb.items()}
        check(got == g1, "reach connectivity differs on the other grid")
        bnd = np.zeros(n, int)
        bnd[sorted(oracles.upstream_of(fd1, case["pts"][0]))] = 1
        c1 = _casc(s1, m1, bnd.reshape(a.shape), case)
        c2 = _casc(s2_, m2, bnd[P].reshape(b.shape), case)
        c2 = {(perm[u], perm[d]): v for (u, d), v in c2.items()}
        check(set(c1) == set(c2), "cascade links differ on the other grid: {}", sorted(set(c1) ^ set(c2))[:4])
        for k, (p, cnt) in c1.items():
            check(abs(p - c2[k][0]) <= 1e-6 and cnt == c2[k][1], "cascade link {} is {} on the other grid, {} here", k, c2[k], (p, cnt))
        # segments: same partition, same downstream relation
        q1 = _segs(s1, m1, case["group"])
        q2 = _segs(s2_, m2, case["group"])
        q2 = {frozenset(perm[c] for c in k): (None if v is None else frozenset(perm[c] for c in v)) for k, v in q2.items()}
        check(q1 == q2, "segments differ on the other grid")
        info.nontrivial = case["kind2"] != case["mesh"]["kind"] or case["perm2"] is not None
        info.label(f"{a.kind}->{b.kind}", a.spec["mesh"], "perm" if case["perm2"] else "noperm", "m2m" if case["m2m"] else "m2o")


def _conn(s, arr, group):
    g = call("get_stream_connectivity", s.get_stream_connectivity, arr, group_segments=group)
    return np.ravel(s.stream_array), g


def _segs(s, arr, group):
    num, g = _conn(s, arr, group)
    cells = collections.defaultdict(set)
    for c, v in enumerate(num):
        if v:
            cells[int(v)].add(c)
    return {frozenset(cells[k]): (None if v == 0 else frozenset(cells[v])) for k, v in g.items()}


def _casc(s, arr, bnd, case):
    call("get_stream_connectivity", s.get_stream_connectivity, arr)
    up, dn, pct, strm = call("get_cascades", s.get_cascades, basin_boundary=bnd, many2many=case["m2m"])
    out = {}
    for u, d, p in zip(up, dn, pct):
        k = (int(u) - 1, int(d) - 1)
        out[k] = (float(p), out.get(k, (0, 0))[1] + 1)
    return out


# ------------------------------------------------------------------------- C19
QUERIES = [["geom", "slope"], ["geom", "aspect"], ["geom", "vectors"], ["geom", "hru_len"], ["geom", "area"],
           ["nidp"], ["watershed", 0], ["watershed", 1], ["subbasins"]]


@st.composite
def _hist_case(draw, size):
    kind = draw(st.sampled_from(["sfr6", "sfr2005", "prms"]))
    c = draw(gen.flow_spec(size=size, kinds=("structured",) if kind == "sfr2005" else ("structured", "vertex", "unstructured"),
                           conds=("strict", "strict", "flat")))
    n = c["mesh"]["ncell"]
    c["skind"] = kind
    c["masks"] = [draw(mask_spec(n, ("facc", "bits", "closed", "one"))) for _ in range(2)]
    c["bcs"] = draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2))
    mi = st.integers(0, 1)
    mn = st.sampled_from([None, 0, 1])
    bl = st.booleans()
    flow = [
        st.tuples(st.just("reflow"), st.integers(0, 2), bl, st.lists(st.integers(0, len(QUERIES) - 1), max_size=3)),
        st.tuples(st.just("acc"), bl),
        st.tuples(st.just("watershed"), mi),
        st.tuples(st.just("subbasins")),
        st.tuples(st.just("geom"), st.sampled_from(["slope", "aspect", "vectors", "hru_len", "area"])),
        st.tuples(st.just("nidp")),
        st.tuples(st.just("grid"), st.sampled_from(["rook", "queen", "fill", "drain", "burn", "nan", "other", "other", "streams", "streams"]), st.booleans()),
    ]
    strm = [
        st.tuples(st.just("delineate"), st.integers(1, 6), st.sampled_from([None, 0, 1])),
        st.tuples(st.just("set"), mi),
        st.tuples(st.just("conn"), mn, bl),
        st.tuples(st.just("vectors"), mn, bl),
        st.tuples(st.just("control"), mi),
        st.tuples(st.just("array")),
    ]
    own = {
        "sfr6": [st.tuples(st.just("cd")), st.tuples(st.just("pd"), mn, bl)],
        "sfr2005": [st.tuples(st.just("rd"), mn, bl), st.tuples(st.just("sd"), mn, bl), st.tuples(st.just("iru"), mn, bl),
                    st.tuples(st.just("build"), bl)],
        "prms": [st.tuples(st.just("casc"), mn, st.sampled_from([None, 0, 1]), bl),
                 st.tuples(st.just("build"), mn, st.sampled_from([None, 0, 1]), bl, bl)],
    }[kind]
    op = st.one_of(st.one_of(flow), st.one_of(strm), st.one_of(own), st.one_of(own))
    c["ops"] = [list(o) for o in draw(st.lists(op, min_size=2, max_size=12 if size == "normal" else 30))]
    return c


class _Sys:
    """the system under test: one grid, one FlowDirections, one stream object"""

    def __init__(self, case, flow, variant, cells):
        self.case, self.flow = case, flow
        self.mesh = flow.mesh
        self.grid = flow.mesh.grid()
        self.fo = make_fo(flow, self.grid, fd=False)
        self.reflow(variant, cells)

    def kw(self, variant):
        kw = {k: (list(v) if isinstance(v, list) else v) for k, v in self.flow.kw.items()}
        if variant:
            # an additional terminal cell
            t = list(self.flow.outs) + [int(self.case["bcs"][variant - 1])]
            kw["terminal_cells"] = t
        return kw

    def reflow(self, variant, cells):
        call("flow_directions", self.fo.flow_directions, **self.kw(variant))
        call("flow_accumulation", self.fo.flow_accumulation, as_cells=cells)
        self.cells = cells
        self.streams()

    def streams(self):
        self.s = call("streams", CLS[self.case["skind"]], self.grid, self.fo)


def _snap(v):
    """deep copy of a result, for comparisons"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: _snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(_snap(x) for x in v)
    if hasattr(v, "__dict__"):
        return {k: _snap(x) for k, x in vars(v).items()}
    return v


def _equal(what, got, exp):
    if isinstance(exp, np.ndarray):
        got = np.asarray(got)
        if exp.dtype.names:
            check(got.dtype.names == exp.dtype.names, "{}: fields {}", what, got.dtype.names)
            for f in exp.dtype.names:
                same(f"{what}.{f}", got[f], exp[f])
        else:
            same(what, got, exp)
    elif isinstance(exp, dict):
        check(isinstance(got, dict) and set(got) == set(exp), "{}: keys {}, expected {}", what, sorted(got)[:10], sorted(exp)[:10])
        for k in exp:
            _equal(f"{what}[{k}]", got[k], exp[k])
    elif isinstance(exp, (list, tuple)):
        check(len(got) == len(exp), "{}: {} items, expected {}", what, len(got), len(exp))
        for k, (u, v) in enumerate(zip(got, exp)):
            _equal(f"{what}[{k}]", u, v)
    else:
        check(got == exp or (got != got and exp != exp), "{} is {}, expected {}", what, got, exp)


class History:
    id = "C19"
    rule = (
        "random sequences of 2-12 (thorough 2-30) calls on one grid, flow object and stream object, each result compared "
        "with a fresh object that only replayed the state-defining calls; non-trivial when four or more compared calls "
        "follow a state change"
    )
    n_quick = 500
    n_thorough = 3000

    @staticmethod
    def strategy(tier):
        return _hist_case(_size(tier))

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        fl = {"v": 0, "cells": True}
        sysA = _Sys(case, flow, 0, True)
        st_ = {"base": None, "map": None}
        kept, changes, compared = [], 0, 0
        fd0 = fdir_of(sysA.fo)
        masks = []
        for d in case["masks"]:
            masks.append(mask_array(d, mask_of(d, fd0), m.shape))
        keepm = [a.copy() for a in masks]
        bnds = []
        for c in case["bcs"]:
            b = np.zeros(m.n, int)
            b[sorted(oracles.upstream_of(fd0, c))] = 1
            bnds.append(b.reshape(m.shape))
        keepb = [a.copy() for a in bnds]
        kind = case["skind"]

        def arr(i):
            return None if i is None else masks[i]

        def do(S, op):
            """one call; returns its result"""
            s, name = S.s, op[0]
            if name == "watershed":
                return call("get_watershed_boundary", S.fo.get_watershed_boundary, m.pt(case["bcs"][op[1]]))
            if name == "subbasins":
                return call("get_subbasins", S.fo.get_subbasins, [m.pt(c) for c in case["bcs"]])
            if name == "geom":
                return call(op[1], lambda: getattr(S.fo, op[1]))
            if name == "nidp":
                return call("get_nidp", S.fo.get_nidp)
            if name == "acc":
                return call("flow_accumulation", S.fo.flow_accumulation, as_cells=op[1])
            if name == "delineate":
                unit = 1 if S.cells else float(np.mean(m.area))
                return call("delineate_streams", s.delineate_streams, op[1] * unit, basin_boundary=None if op[2] is None else bnds[op[2]])
            if name == "set":
                return call("set_stream_array", s.set_stream_array, masks[op[1]])
            if name == "conn":
                kw = {} if kind == "sfr6" else {"group_segments": op[2]}
                return call("get_stream_connectivity", s.get_stream_connectivity, arr(op[1]), **kw)
            if name == "vectors":
                return call("create_stream_vectors", s.create_stream_vectors, arr(op[1]), group_segments=op[2])
            if name == "control":
                return call("threshold_from_control_points", s.threshold_from_control_points, [m.pt(case["bcs"][op[1]])], threshold=1e9)
            if name == "array":
                return call("stream_array", lambda: np.nan_to_num(s.stream_array))
            if name == "cd":
                return call("connectiondata", s.connectiondata)
            if name == "pd":
                return call("packagedata", s.packagedata, arr(op[1]), detuple=op[2])
            if name == "rd":
                return call("reach_data", s.reach_data, arr(op[1]), group_segments=op[2])
            if name == "sd":
                return call("segment_data", s.segment_data, arr(op[1]), group_segments=op[2])
            if name == "iru":
                return call("irunbnd", s.irunbnd, arr(op[1]), group_segments=op[2])
            if name == "casc":
                return call("get_cascades", s.get_cascades, arr(op[1]), basin_boundary=None if op[2] is None else bnds[op[2]], many2many=op[3])
            if name == "build" and kind == "prms":
                return call("get_pygsflow_builder_object", s.get_pygsflow_builder_object, arr(op[1]),
                            basin_boundary=None if op[2] is None else bnds[op[2]], many2many=op[3], group_segments=op[4])
            if name == "build":
                return call("get_pygsflow_builder_object", s.get_pygsflow_builder_object, group_segments=op[1])
            raise KeyError(name)

        def cells_of(i):
            return np.nan_to_num(np.ravel(masks[i])) != 0

        def fresh():
            S = _Sys(case, flow, fl["v"], fl["cells"])
            if st_["base"] is not None:
                do(S, st_["base"])
            if st_["map"] is not None:
                do(S, st_["map"])
            return S

        for op in case["ops"]:
            name = op[0]
            if name == "reflow":
                if op[1] and "terminal_cells" in flow.kw and isinstance(flow.kw["terminal_cells"][0], tuple):
                    op = ["reflow", 0, op[2]]
                v = op[1]
                if v and flow.nan[case["bcs"][v - 1]]:
                    v = 0
                before = [QUERIES[q] for q in (op[3] if len(op) > 3 else [])]
                for q in before:
                    do(sysA, q)
                fl.update(v=v, cells=op[2])
                st_.update(base=None, map=None)
                sysA.reflow(v, op[2])
                changes += 1
                S = fresh()
                for q in before:
                    _equal(f"{q} after new flow directions", _snap(do(sysA, q)), _snap(do(S, q)))
                _equal("flow_directions after a history", sysA.fo.flow_direction_array, S.fo.flow_direction_array)
                _equal("flow_accumulation after a history", sysA.fo.flow_accumulation_array, S.fo.flow_accumulation_array)
                info.label("op_reflow")
                continue
            if name == "grid":
                g = sysA.grid
                if op[2]:
                    # flopy caches the neighbors of the last method asked for
                    g.neighbors(method="rook", reset=True)
                if op[1] == "streams":
                    # a new stream object on the grid
                    sysA.streams()
                    st_.update(base=None, map=None)
                    changes += 1
                    _equal("thresholds of a new stream object", _snap(do(sysA, ["control", 0])), _snap(do(fresh(), ["control", 0])))
                elif op[1] in ("rook", "queen"):
                    g.neighbors(method=op[1], reset=op[1] == "rook")
                elif op[1] == "other":
                    f1, f2 = make_fo(flow, g), make_fo(flow, m.grid())
                    same("flow directions of a second object on the grid", f1.flow_direction_array, f2.flow_direction_array)
                    same("hru_len of a second object on the grid", call("hru_len", lambda: f1.hru_len), call("hru_len", lambda: f2.hru_len))
                else:
                    z = np.array(flow.dem(), float)
                    if op[1] == "nan":
                        z.flat[1::3] = np.nan
                    if op[1] == "drain":
                        z = np.nan_to_num(z, nan=float(np.nanmin(z)))
                    zs = [z.copy(), z.copy()]
                    res = []
                    for gr, zz in zip((g, m.grid()), zs):
                        if op[1] == "nan":
                            res.append(call("fill_nan_values", dany.fill_nan_values, gr, zz))
                        elif op[1] == "burn":
                            res.append(call("fill_sinks", dany.fill_sinks, gr, zz, stream_mask=np.nan_to_num(masks[0]).astype(bool)))
                        else:
                            res.append(call("fill_sinks", dany.fill_sinks, gr, zz, method="drain" if op[1] == "drain" else "priority"))
                        same("the dem passed by the caller was changed", zz, z)
                    same(f"{op[1]} on a grid with a history", res[0], res[1])
                info.label("op_grid")
                continue
            # calls that need a stream array and have none
            needs = name in ("cd", "pd", "rd", "sd", "iru", "casc", "build", "conn", "vectors", "array")
            arg = op[1] if name in ("conn", "vectors", "pd", "rd", "sd", "iru", "casc") or (name == "build" and kind == "prms") else None
            have = st_["base"] is not None or st_["map"] is not None
            if needs and not have and arg is None:
                try:
                    call(name, do, sysA, op, _allow=AssertionError)
                except Violation as e:
                    check("AssertionError" in str(e), "{} without a stream array: {}", name, e)
                else:
                    check(False, "{} did not raise without a stream array", name)
                info.label("op_missing")
                continue
            S = fresh()
            have_cells = np.nan_to_num(np.ravel(S.s.stream_array)) != 0 if have else None
            if name == "delineate":
                # networks without a stream cell are out of the domain
                fa = np.ravel(S.fo.flow_accumulation_array)
                unit = 1 if S.cells else float(np.mean(m.area))
                for op in (op, [name, op[1], None], [name, 0, None]):
                    if ((fa >= op[1] * unit) & (True if op[2] is None else np.ravel(bnds[op[2]]) != 0)).any():
                        break
            exp = _snap(do(S, op))
            got = do(sysA, op)
            info.label("op_" + name)
            _equal(f"{name}{op[1:]} after a history", _snap(got), exp)
            compared += 1
            if name in ("watershed", "subbasins", "control", "array") and len(kept) % 2:
                # these arrays are the caller's to edit
                if name == "array":
                    got = call("stream_array", lambda: sysA.s.stream_array)
                got[...] = 3
                info.label("op_scribble")
                _equal(f"{name}{op[1:]} after its result was edited", _snap(do(sysA, op)), exp)
            else:
                kept.append((name, got, _snap(got)))
            # model of the state
            cur_map = st_["map"]
            if name == "acc":
                fl["cells"] = op[1]
                sysA.cells = op[1]
                # stream objects keep the accumulation they were created with
                sysA.streams()
                st_.update(base=None, map=None)
                changes += 1
            elif name in ("delineate", "set"):
                st_.update(base=op, map=None)
                changes += 1
            elif name == "conn":
                st_["map"] = op
                changes += 1
            elif name == "vectors" and not have:
                st_.update(base=["set", op[1]], map=None)
            elif name == "cd" and cur_map is None:
                st_["map"] = ["conn", None, False]
            elif name == "pd" and (op[1] is not None or cur_map is None):
                st_["map"] = ["conn", op[1], False]
            elif name in ("rd", "sd", "iru"):
                if cur_map is None or (op[1] is not None and not np.array_equal(cells_of(op[1]), have_cells)):
                    st_["map"] = ["conn", op[1], op[2]]
            elif name == "casc":
                if cur_map is None or (op[1] is not None and not np.array_equal(cells_of(op[1]), have_cells)):
                    st_["map"] = ["conn", op[1], False]
            elif name == "build" and kind == "prms":
                st_["map"] = ["conn", op[1], op[4]]
            elif name == "build" and cur_map is None:
                st_["map"] = ["conn", None, op[1]]
            if st_["map"] is not cur_map and cur_map is not None and st_["map"] is not None and st_["map"][1] is None:
                # the stored (already mapped) streams are mapped again
                st_["map"] = ["conn", cur_map[1], st_["map"][2]]
            if st_["map"] is not None:
                T = fresh()
                same("stream array after " + name, np.nan_to_num(sysA.s.stream_array), np.nan_to_num(T.s.stream_array))
        S = fresh()
        for q in QUERIES:
            _equal(f"{q} at the end of the history", _snap(do(sysA, q)), _snap(do(S, q)))
        for name, got, snap in kept:
            if name != "acc":
                _equal(f"result of an earlier {name}, read after later calls", _snap(got), snap)
        # the grid is the caller's: only its top is set (to the dem)
        g0, g1 = m.grid(), sysA.grid
        for k in ("xcellcenters", "ycellcenters", "verts", "idomain", "botm"):
            same(f"modelgrid.{k} after a history", getattr(g1, k), getattr(g0, k))
        _equal("modelgrid.iverts after a history", [list(v) for v in g1.iverts], [list(v) for v in g0.iverts])
        if not any(o[0] == "grid" and (o[1] == "rook" or o[2]) for o in case["ops"]):
            # flopy keeps the neighbors of the last method asked for
            nbs = g1.neighbors(method="queen")
            check([sorted(int(v) for v in nbs[i]) for i in range(m.n)] == m.nb, "modelgrid.neighbors() after a history differs")
        for k in range(2):
            same("a stream array passed by the caller was changed", masks[k], keepm[k])
            same("a basin mask passed by the caller was changed", bnds[k], keepb[k])
        info.nontrivial = compared >= 4 and changes >= 1
        info.label(m.kind, kind)


PROPS = [Representation, History]
