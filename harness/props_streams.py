"""C10-C17, C21-C23: stream networks, cascades, model input builders."""
import boot  # noqa: F401
import collections
import math
import os
import pathlib

import dany
import numpy as np
from hypothesis import strategies as st

import gen
import oracles
from core import Violation, call, check, same
from props_flow import fdir_of, make_fo, valid_fdir

CLS = {"sfr6": dany.Sfr6, "sfr2005": dany.Sfr2005, "prms": dany.PrmsStreams}
DTYPES = {"int": int, "bool": bool, "float": float, "i1": np.int8, "u1": np.uint8, "f4": np.float32, "i4": np.int32}


# ------------------------------------------------------------------- stream masks
@st.composite
def mask_spec(draw, n, forms=("facc", "facc", "bits", "closed", "closed", "all", "one"), none=True):
    # "none": a threshold that no cell reaches
    f = "none" if none and draw(st.integers(0, 24)) == 0 else draw(st.sampled_from(forms))
    d = {"f": f}
    if f == "facc":
        d["k"] = draw(st.integers(1, max(1, min(n, 12))))
    elif f == "bits":
        d["b"] = draw(gen.ints(n, 0, 1))
    elif f in ("closed", "one"):
        d["c"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=1 if f == "one" else 6, unique=True))
    d["dt"] = draw(st.sampled_from(["int", "int", "int", "bool", "float", "i1", "u1", "f4", "i4", "nan"]))
    d["flat"] = draw(st.booleans())
    d["lay"] = draw(st.sampled_from(gen.LAYOUTS))
    return d


def bmask(a, dt):
    """a basin mask of the drawn type; any value that is not zero is an active cell"""
    a = np.asarray(a)
    return a * 0.25 if dt == "frac" else a.astype(DTYPES[dt])


def mask_of(d, fd):
    n = len(fd)
    m = np.zeros(n, bool)
    f = d["f"]
    if f == "facc":
        m = oracles.accumulate(fd, np.ones(n)) >= d["k"]
    elif f == "bits":
        m = np.array(d["b"]) > 0
        if not m.any():
            m[0] = True
    elif f == "all":
        m[:] = True
    elif f == "none":
        return m
    elif f == "one":
        m[d["c"]] = True
    else:
        for c in d["c"]:
            m[oracles.walk(fd, c)] = True
    if not m.any():
        m[int(fd[0])] = True
    return m


def mask_array(d, m, shape):
    # "nan": land is no data, as in arrays that are prepared for plots
    a = np.where(m, 1.0, np.nan) if d["dt"] == "nan" else m.astype(DTYPES[d["dt"]])
    return gen.lay(a if d["flat"] else a.reshape(shape), d.get("lay", "C"))


class Net:
    """conditioned dem, flow directions, a stream object and a stream mask"""

    def __init__(self, case, kind=None, give=None):
        self.flow = flow = gen.Flow(case)
        self.mesh = m = flow.mesh
        self.grid = m.grid()
        self.fo = make_fo(flow, self.grid, acc=bool(case.get("cells", True)))
        self.fd = fd = fdir_of(self.fo)
        valid_fdir(flow, fd)
        self.n = m.n
        self.mask = mask_of(case["mask"], fd)
        self.arr = mask_array(case["mask"], self.mask, m.shape)
        self.before = self.arr.copy()
        if kind is not None:
            self.s = call(f"{kind}()", CLS[kind], self.grid, self.fo)
            if case.get("past"):
                self.earlier(case["past"])

    def earlier(self, past):
        """earlier streams on the same object, which the later calls replace"""
        k = past["mask"]
        other = (np.arange(self.n) * 7 % k != 0).reshape(self.mesh.shape)
        if other.any() and (np.ravel(other) != self.mask).any():
            s, g = self.s, {} if isinstance(self.s, dany.Sfr6) else {"group_segments": past["group"]}
            call("set_stream_array (earlier call)", s.set_stream_array, other.astype(int))
            ops = [("get_stream_connectivity", g), ("create_stream_vectors", {"group_segments": past["group"]}),
                   ("threshold_from_control_points", {"points": [self.mesh.pt(k % self.n)]})]
            if isinstance(s, dany.Sfr6):
                ops += [("packagedata", {}), ("connectiondata", {}), ("packagedata", {"detuple": True})]
            elif isinstance(s, dany.Sfr2005):
                if self.mesh.kind == "structured":
                    ops += [("reach_data", g), ("get_pygsflow_builder_object", g)]
                ops += [("segment_data", g), ("irunbnd", g)]
            elif isinstance(s, dany.PrmsStreams):
                ops += [("get_cascades", {}), ("get_cascades", {"many2many": True}), ("get_pygsflow_builder_object", g)]
            for i in past["sops"]:
                name, kw = ops[i % len(ops)]
                call(name + " (earlier call)", getattr(s, name), **kw)

    def unchanged(self):
        same("the stream array passed by the caller was changed", self.arr, self.before)
        same("flow directions", fdir_of(self.fo), self.fd)

    def label(self, info, case):
        m = self.mesh
        info.label(m.kind, m.spec["mesh"], "mask_" + case["mask"]["f"], "dt_" + case["mask"]["dt"], "give_" + case.get("give", "-"))


def feed(net, how):
    """hand the mask to the stream object, return the argument for the next call"""
    if how == "set":
        call("set_stream_array", net.s.set_stream_array, net.arr)
        return {}
    return {"stream_array": net.arr}


def grp(case, group, s=None):
    """group_segments as a keyword, or left to its documented default"""
    default = not isinstance(s, dany.PrmsStreams)
    return {} if case.get("omit") and bool(group) == default else {"group_segments": group}


@st.composite
def net_spec(draw, size="normal", kinds=("structured", "vertex", "unstructured"), forms=None, **kw):
    c = draw(gen.flow_spec(kinds=kinds, size=size, **kw))
    n = c["mesh"]["ncell"]
    c["mask"] = draw(mask_spec(n, forms) if forms else mask_spec(n))
    c["give"] = draw(st.sampled_from(["set", "arg"]))
    c["cells"] = draw(st.booleans())
    c["omit"] = draw(st.booleans())
    return c


def big_nets(tier, more=({},), **kw):
    """the large cases with stream masks: everything, and what drains more than a few cells"""
    i = 0
    for c in gen.big_flows(tier, **kw):
        n = c["mesh"]["ncell"]
        masks = [{"f": "facc", "k": 40 if c.get("huge") else 4, "dt": "int", "flat": False}]
        if c["mesh"].get("delc", [0])[0] == 5.0:
            masks = [{"f": "all", "dt": "bool", "flat": False}, {"f": "closed", "c": [n - 1, 1], "dt": "float", "flat": False}]
            if "ends" in c:
                masks[1]["c"] = c["ends"]
        elif "ends" in c:
            masks += [{"f": "closed", "c": c["ends"], "dt": "int", "flat": False}]
        for m in masks:
            for d in more[-2:] if c.get("huge") else more:
                i += 1
                yield dict(c, mask=m, give="set" if i % 2 else "arg", cells=bool(i % 3), omit=bool(i % 5 < 2), **d)


def _size(tier):
    return "large" if tier == "thorough" else "normal"


# ------------------------------------------------------------------------- C10
@st.composite
def _del_case(draw, size):
    c = draw(gen.flow_spec(size=size))
    n = c["mesh"]["ncell"]
    c["cells"] = draw(st.booleans())
    c["kind"] = draw(st.sampled_from(sorted(CLS)))
    t = draw(st.sampled_from(["int", "float", "cell", "array", "array2", "ctrl"]))
    c["t"] = t
    if t in ("int", "float"):
        c["cthr"] = draw(st.integers(0, 40))
    elif t == "cell":
        c["cthr"] = draw(st.integers(0, n - 1))
    elif t == "ctrl":
        c["cthr"] = draw(st.integers(0, n - 1))
    else:
        c["cthr"] = draw(gen.ints(n, 0, 12))
    b = draw(st.sampled_from(["none", "none", "watershed", "bits", "subbasin"]))
    c["b"] = b
    if b in ("watershed", "subbasin"):
        c["bc"] = draw(st.integers(0, n - 1))
    elif b == "bits":
        c["bc"] = draw(gen.ints(n, 0, 2))
    c["bdt"] = draw(st.sampled_from(["int", "bool", "float", "frac"]))
    c["blay"] = draw(st.sampled_from(gen.LAYOUTS))
    c["flat"] = draw(st.booleans())
    return c


class Delineate:
    id = "C10"
    rule = (
        "random conditioned flow network; scalar, per-cell or control-point thresholds and optional basin masks; "
        "non-trivial when the mask has both stream and land cells"
    )

    @staticmethod
    def strategy(tier):
        return _del_case(_size(tier))

    @staticmethod
    def extra(tier):
        for c in gen.big_flows(tier):
            for t, v in (("int", 30), ("float", 9), ("ctrl", 1)):
                yield dict(c, cells=t == "int", kind="sfr6", t=t, cthr=v, b="watershed" if t == "float" else "none", bc=7,
                           bdt="int", blay="C", flat=False)

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        grid = m.grid()
        fo = make_fo(flow, grid, acc=case["cells"])
        fd = fdir_of(fo)
        valid_fdir(flow, fd)
        facc = np.asarray(fo.flow_accumulation_array, float).ravel().copy()
        s = call("streams", CLS[case["kind"]], grid, fo)
        try:
            call("stream_array", lambda: s.stream_array, _allow=AssertionError)
        except AssertionError:
            pass
        else:
            check(False, "stream_array did not raise before a stream array exists")
        unit = 1.0 if case["cells"] else float(np.mean(m.area))
        t = case["t"]
        if t == "int":
            thr = int(case["cthr"] * max(1, round(unit)))
            if case["flat"]:
                thr = np.int64(thr)
        elif t == "float":
            thr = case["cthr"] * unit * 0.5
        elif t == "cell":
            thr = float(facc[case["cthr"]])
            if case["flat"]:
                thr = facc[case["cthr"]]
        elif t == "ctrl":
            thr = call("threshold_from_control_points", s.threshold_from_control_points, [m.pt(case["cthr"])],
                       threshold=float(facc.max() * 0.6))
        else:
            thr = np.array(case["cthr"], float) * unit
            if t == "array2" and not case["flat"]:
                thr = thr.reshape(m.shape)
        b = case["b"]
        bnd = None
        if b == "watershed":
            bnd = call("get_watershed_boundary", fo.get_watershed_boundary, m.pt(case["bc"]))
        elif b == "subbasin":
            bnd = call("get_subbasins", fo.get_subbasins, [m.pt(case["bc"])])
        elif b == "bits":
            bnd = np.array(case["bc"]).reshape(m.shape)
            if case["flat"]:
                bnd = bnd.ravel()
        if bnd is not None:
            bnd = gen.lay(bmask(bnd, case["bdt"]), case["blay"])
        if np.ndim(thr):
            thr = gen.lay(thr, case["blay"])
        keep_b = None if bnd is None else bnd.copy()
        keep_t = np.copy(thr)
        got = call("delineate_streams", s.delineate_streams, thr, basin_boundary=bnd)
        check(np.shape(got) == m.shape, "delineate_streams returned shape {}", np.shape(got))
        exp = facc >= np.ravel(thr) if np.ndim(thr) else facc >= thr
        if bnd is not None:
            exp = exp & (np.ravel(bnd) != 0)
            same("the basin boundary passed by the caller was changed", bnd, keep_b)
        same("the threshold passed by the caller was changed", thr, keep_t)
        same("delineated stream cells", np.ravel(got), exp.astype(int))
        same("stream_array", s.stream_array, got)
        if np.ndim(thr) == 0 and bnd is None:
            for c in np.where(exp)[0]:
                check(exp[fd[c]], "stream cell {} flows to {}, which is not a stream cell", c, fd[c])
            more = call("delineate_streams", s.delineate_streams, thr * 1.5 + unit)
            check(not (np.ravel(more) > exp).any(), "a larger contributing area added stream cells")
        # the property returns a copy
        a = s.stream_array
        keep = a.copy()
        a[...] = 7
        same("stream_array after its returned copy was edited", s.stream_array, keep)
        same("flow accumulation", np.ravel(fo.flow_accumulation_array), facc)
        # custom arrays
        arr = np.where(exp, 1, 0)
        if case["flat"]:
            # numbered streams
            arr = np.where(exp, 1 + np.arange(m.n) % 5, 0).astype(DTYPES[{"frac": "float"}.get(case["bdt"], case["bdt"])])
            arr = gen.lay(arr.reshape(m.shape), case["blay"])
        call("set_stream_array", s.set_stream_array, arr)
        same("stream_array after set_stream_array", s.stream_array, arr.reshape(m.shape))
        try:
            call("set_stream_array(wrong size)", s.set_stream_array, np.ones(m.n + 1), _allow=ValueError)
        except ValueError:
            pass
        else:
            check(False, "set_stream_array accepted an array of a different size")
        info.nontrivial = bool(exp.any() and not exp.all())
        info.label(m.kind, m.spec["mesh"], "t_" + t, "b_" + b, case["kind"], "nan" if flow.nan.any() else "no_nan")


# ------------------------------------------------------------------------- C11
def reach_numbers(net, graph, what, numbered):
    """cell -> reach number after checking that it is a topological bijection"""
    cells = np.where(net.mask)[0]
    arr = np.ravel(numbered)
    check(arr.size == net.n, "{}: numbered array has {} values", what, arr.size)
    check(not (arr[~net.mask] != 0).any(), "{}: land cells carry reach numbers", what)
    num = {int(c): int(arr[c]) for c in cells}
    check(sorted(num.values()) == list(range(1, len(cells) + 1)), "{}: {} stream cells are numbered {}", what, len(cells), sorted(num.values())[:20])
    check(sorted(int(k) for k in graph) == list(range(1, len(cells) + 1)), "{}: graph reaches {} for {} stream cells", what, sorted(graph)[:20], len(cells))
    for c in cells:
        d = int(net.fd[c])
        exp = num[d] if net.mask[d] else 0
        got = int(graph[num[int(c)]])
        check(got == exp, "{}: reach {} (cell {}) goes to {}, its flow direction is cell {} (reach {})", what, num[int(c)], c, got, d, exp)
        if exp and d != c:
            check(num[int(c)] < exp, "{}: reach {} is upstream of {}, numbers must increase downstream", what, num[int(c)], exp)
    return num


@st.composite
def _mf6_case(draw, size):
    c = draw(net_spec(size=size))
    c["kind"] = draw(st.sampled_from(["sfr6", "sfr6", "prms"]))
    return c


def check_connections(net, num, conn, what):
    check(len(conn) == len(num), "{}: {} records for {} reaches", what, len(conn), len(num))
    ups = oracles.upstream_sets(net.fd)
    inv = {r: c for c, r in num.items()}
    for ix, rec in enumerate(conn):
        rec = [int(v) for v in rec]
        check(rec[0] == ix, "{}: record {} is for reach {}", what, ix, rec[0])
        c = inv[ix + 1]
        d = int(net.fd[c])
        exp = sorted(num[u] - 1 for u in ups[c] if u in num)
        exp_dn = [-(num[d] - 1)] if net.mask[d] and d != c else []
        up = sorted(v for v in rec[1:] if v >= 0)
        dn = [v for v in rec[1:] if v < 0]
        check(up == exp and dn == exp_dn, "{}: reach {} (cell {}) connects to {}, expected upstream {} and downstream {}", what, ix, c, rec[1:], exp, exp_dn)


class Mf6Graph:
    id = "C11"
    rule = "random conditioned flow network and stream mask (accumulation, downstream-closed, arbitrary; several dtypes); non-trivial when a reach has two upstream reaches"

    @staticmethod
    def strategy(tier):
        return _mf6_case(_size(tier))

    @staticmethod
    def extra(tier):
        n = 1300
        for kind in ("sfr6", "prms"):
            yield {
                "mesh": {"mesh": "rect", "kind": "structured", "delr": [10.0] * n, "delc": [5.0], "ncell": n},
                "e": {"z": [0] * n, "scale": 1.0, "base": 5.0}, "mask": {"f": "all", "dt": "bool", "flat": False},
                "form": "min", "outs": [7], "cond": "strict", "step": 1.0, "give": "arg", "cells": True, "kind": kind,
            }
        yield from big_nets(tier, [{"kind": "sfr6"}, {"kind": "prms"}])
        for kind in ("sfr6", "prms"):
            yield dict(gen.huge_flow(), mask={"f": "all", "dt": "int", "flat": False}, give="arg", cells=True, kind=kind)

    @staticmethod
    def run(case, info):
        net = Net(case, case["kind"])
        kw = feed(net, case["give"])
        if case["kind"] == "prms" and not case.get("omit"):
            kw["group_segments"] = False
        graph = call("get_stream_connectivity", net.s.get_stream_connectivity, **kw)
        num = reach_numbers(net, graph, "get_stream_connectivity", call("stream_array", lambda: net.s.stream_array))
        if case["kind"] == "sfr6":
            conn = call("connectiondata", net.s.connectiondata)
            check_connections(net, num, conn, "connectiondata")
            conn2 = call("connectiondata(graph)", net.s.connectiondata, dict(graph))
            check(conn2 == conn, "connectiondata(graph) differs from connectiondata()")
            s2 = call("Sfr6()", dany.Sfr6, net.grid, net.fo)
            call("set_stream_array", s2.set_stream_array, net.arr)
            conn3 = call("connectiondata without get_stream_connectivity", s2.connectiondata)
            check(conn3 == conn, "connectiondata() depends on a previous get_stream_connectivity()")
            # a graph that is passed counts, whatever the object holds, in any order
            call("get_stream_connectivity", s2.get_stream_connectivity, np.ones(net.mesh.shape, int))
            g2 = {k: graph[k] for k in sorted(graph, reverse=True)}
            check_connections(net, num, call("connectiondata(graph of other streams)", s2.connectiondata, g2), "connectiondata(graph)")
            check(g2 == dict(graph), "connectiondata changed the graph passed")
        else:
            s2 = call("Sfr6()", dany.Sfr6, net.grid, net.fo)
            g2 = call("get_stream_connectivity", s2.get_stream_connectivity, net.arr)
            check(dict(g2) == dict(graph), "PrmsStreams and Sfr6 connectivity differ")
        net.unchanged()
        ups = oracles.upstream_sets(net.fd)
        info.nontrivial = any(sum(bool(net.mask[u]) for u in ups[c]) > 1 for c in np.where(net.mask)[0])
        net.label(info, case)
        info.label(case["kind"])


# ------------------------------------------------------------------------- C12
class PackageData:
    id = "C12"
    rule = "random conditioned flow network and stream mask; non-trivial when three or more reaches exist"

    @staticmethod
    def strategy(tier):
        return _pkg_case(_size(tier))

    @staticmethod
    def extra(tier):
        yield from big_nets(tier, ({"pre": False}, {"pre": True}), n=150, side=18)
        yield dict(gen.huge_flow(), mask={"f": "all", "dt": "int", "flat": False}, give="arg", cells=True, pre=True)

    @staticmethod
    def run(case, info):
        net = Net(case, "sfr6")
        m, z, fd = net.mesh, net.flow.z, net.fd
        kw = feed(net, case["give"])
        if case["pre"]:
            call("get_stream_connectivity", net.s.get_stream_connectivity, **kw)
            if case["give"] == "arg":
                kw = {}
        pk = call("packagedata", net.s.packagedata, **kw)
        num = {int(c): int(v) for c, v in enumerate(np.ravel(net.s.stream_array)) if v}
        check(sorted(num.values()) == list(range(1, int(net.mask.sum()) + 1)) and sorted(num) == list(np.where(net.mask)[0]),
              "stream array after packagedata does not number the stream cells")
        graph = {r: (num[int(fd[c])] if net.mask[fd[c]] else 0) for c, r in num.items()}
        conn = call("connectiondata", net.s.connectiondata)
        check_connections(net, num, conn, "connectiondata after packagedata")
        check(len(pk) == len(num), "packagedata has {} records for {} reaches", len(pk), len(num))
        inv = {r: c for c, r in num.items()}
        slope = np.zeros(net.n)
        for c in range(net.n):
            d = int(fd[c])
            if d != c:
                drop = z[c] - z[d]
                slope[c] = drop / m.dist(c, d)
        sc = float(np.abs(np.array(m.verts)).max())
        for ix, rec in enumerate(pk):
            c = inv[ix + 1]
            d = int(fd[c])
            check(int(rec["ifno"]) == ix, "record {} has ifno {}", ix, rec["ifno"])
            if m.kind == "structured":
                cid = (0, c // m.shape[1], c % m.shape[1])
            elif m.kind == "vertex":
                cid = (0, c)
            else:
                cid = (c,)
            check(tuple(int(v) for v in rec["cellid"]) == cid, "reach {} has cellid {}, expected {}", ix, rec["cellid"], cid)
            if net.mask[d] and d != c:
                exp = 1.5 * m.dist(c, d)
                check(abs(rec["rlen"] - exp) <= 1e-9 * exp + 1e-9 * sc, "reach {} (cell {}): rlen {}, expected {}", ix, c, rec["rlen"], exp)
            else:
                ring = m.rings[c]
                el = [math.dist(ring[k - 1], ring[k]) for k in range(len(ring))]
                check(1.5 * min(el) * 0.999 - 1e-9 * sc <= rec["rlen"] <= 1.5 * max(el) * 1.001 + 1e-9 * sc,
                      "outlet reach {} (cell {}): rlen {} is not a length of its cell", ix, c, rec["rlen"])
            check(abs(rec["rgrd"] - slope[c] / 1.5) <= 1e-9 + 1e-6 * abs(slope[c]), "reach {} (cell {}): rgrd {}, expected {}", ix, c, rec["rgrd"], slope[c] / 1.5)
            same(f"rtp of reach {ix}", rec["rtp"], z[c])
            nc = len(conn[ix]) - 1
            check(int(rec["ncon"]) == nc, "reach {}: ncon {}, connectiondata lists {}", ix, rec["ncon"], nc)
            check(rec["ustrf"] == 1.0 and int(rec["ndv"]) == 0, "reach {}: ustrf {} ndv {}", ix, rec["ustrf"], rec["ndv"])
        dt = call("packagedata(detuple)", net.s.packagedata, detuple=True)
        names = {"structured": ["k", "i", "j"], "vertex": ["k", "node"], "unstructured": ["node"]}[m.kind]
        check(list(dt.dtype.names) == ["ifno"] + names + [f for f in pk.dtype.names if f not in ("ifno", "cellid")], "detupled fields are {}", dt.dtype.names)
        for ix in range(len(pk)):
            check([int(dt[f][ix]) for f in names] == [int(v) for v in pk["cellid"][ix]], "detupled cellid of reach {} differs", ix)
        for f in dt.dtype.names:
            if f not in names:
                same(f"detupled field {f}", dt[f], pk[f])
        same("connectivity after packagedata", np.array(sorted(call("get_stream_connectivity", net.s.get_stream_connectivity).items())), np.array(sorted(graph.items())))
        net.unchanged()
        info.nontrivial = len(num) >= 3
        net.label(info, case)
        info.label("closed" if m.spec.get("closed") else "open", "premapped" if case["pre"] else "direct")


@st.composite
def _pkg_case(draw, size):
    c = draw(net_spec(size=size))
    c["pre"] = draw(st.booleans())
    return c


# ------------------------------------------------------------------------- C13
def ref_segments(net, group):
    """[list of cells] per segment, keyed by its first cell, and start -> start of the
    downstream segment (None: leaves the network, itself: terminal cell)"""
    fd, mask = net.fd, net.mask
    cells = [int(c) for c in np.where(mask)[0]]
    nin = collections.Counter()
    for c in cells:
        d = int(fd[c])
        if mask[d]:
            nin[d] += 1
    segs, dn = {}, {}
    if group:
        starts = {c for c in cells if nin[c] != 1 or int(fd[c]) == c}
        for s0 in starts:
            path, c = [s0], s0
            while True:
                d = int(fd[c])
                if not mask[d]:
                    dn[s0] = None
                    break
                if d in starts:
                    dn[s0] = d
                    break
                path.append(d)
                c = d
            segs[s0] = path
    else:
        for c in cells:
            d = int(fd[c])
            segs[c] = [c]
            dn[c] = d if mask[d] and d != c else None
    return segs, dn


def segment_numbers(net, graph, group, arr, what):
    segs, dn = ref_segments(net, group)
    arr = np.ravel(arr)
    check(arr.size == net.n, "{}: numbered array has {} values", what, arr.size)
    check(not (arr[~net.mask] != 0).any(), "{}: land cells carry segment numbers", what)
    num = {}
    for s0, path in segs.items():
        ids = {int(arr[c]) for c in path}
        check(len(ids) == 1, "{}: the reach cells {} between junctions carry segments {}", what, path[:8], sorted(ids))
        num[s0] = ids.pop()
    check(sorted(num.values()) == list(range(1, len(segs) + 1)), "{}: {} segments are numbered {}", what, len(segs), sorted(num.values())[:20])
    check(sorted(int(k) for k in graph) == sorted(num.values()), "{}: graph segments {} for {} segments", what, sorted(graph)[:20], len(num))
    for s0 in segs:
        exp = 0 if dn[s0] is None else num[dn[s0]]
        got = int(graph[num[s0]])
        check(got == exp, "{}: segment {} (starting in cell {}) goes to {}, expected {}", what, num[s0], s0, got, exp)
        if exp and exp != num[s0]:
            check(num[s0] < exp, "{}: segment {} is upstream of {}, numbers must increase downstream", what, num[s0], exp)
    return segs, dn, num


@st.composite
def _seg_case(draw, size, kinds=("structured", "vertex", "unstructured"), who=("sfr2005", "prms")):
    c = draw(net_spec(size=size, kinds=kinds))
    c["kind"] = draw(st.sampled_from(who))
    c["group"] = draw(st.sampled_from([True, True, False]))
    return c


class Segments:
    id = "C13"
    rule = "random conditioned flow network and stream mask, grouped and ungrouped; non-trivial when some segment has two or more reaches or two upstream segments"

    @staticmethod
    def strategy(tier):
        return _seg_case(_size(tier))

    @staticmethod
    def extra(tier):
        n = 1300
        for group in (True, False):
            yield {
                "mesh": {"mesh": "rect", "kind": "structured", "delr": [10.0] * n, "delc": [5.0], "ncell": n},
                "e": {"z": [0] * n, "scale": 1.0, "base": 5.0}, "mask": {"f": "all", "dt": "int", "flat": False},
                "form": "min", "outs": [7], "cond": "strict", "step": 1.0, "give": "set", "cells": True, "kind": "sfr2005",
                "group": group,
            }
        yield from big_nets(tier, [{"group": True, "kind": "prms"}, {"group": False, "kind": "sfr2005"}], huge=183)

    @staticmethod
    def run(case, info):
        group = case["group"] or case["kind"] == "prms"
        net = Net(case, case["kind"])
        kw = feed(net, case["give"])
        graph = call("get_stream_connectivity", net.s.get_stream_connectivity, **grp(case, group, net.s), **kw)
        arr = call("stream_array", lambda: net.s.stream_array)
        check(np.shape(arr) == net.mesh.shape, "segment array has shape {}", np.shape(arr))
        segs, dn, num = segment_numbers(net, graph, group, arr, "get_stream_connectivity")
        # mapping the numbered streams again gives the same segments
        g2 = call("get_stream_connectivity again", net.s.get_stream_connectivity, **grp(case, group, net.s))
        check(dict(g2) == dict(graph), "mapping the numbered stream array again changes the segments")
        same("segment array mapped again", net.s.stream_array, arr)
        net.unchanged()
        nu = collections.Counter(v for v in dn.values() if v is not None)
        info.nontrivial = any(len(p) > 1 for p in segs.values()) or any(v > 1 for v in nu.values())
        net.label(info, case)
        info.label(case["kind"], "grouped" if group else "cells")


# ------------------------------------------------------------------------- C14
@st.composite
def _rd_case(draw, size):
    c = draw(_seg_case(size, kinds=("structured",), who=("sfr2005",)))
    c["order"] = draw(st.sampled_from(["conn", "reach", "seg"]))
    return c


def f4(x):
    return float(np.float32(x))


class ReachData:
    id = "C14"
    rule = "structured grid (variable spacing, offset and rotated included), random network and stream mask; non-trivial when two segments exist and one has two or more reaches"

    @staticmethod
    def strategy(tier):
        return _rd_case(_size(tier))

    @staticmethod
    def extra(tier):
        return big_nets(tier, [{"group": g, "order": o, "kind": "sfr2005"} for g in (True, False) for o in ("reach", "seg")],
                        kinds=("structured",))

    @staticmethod
    def run(case, info):
        net = Net(case, "sfr2005")
        m, z, fd, group = net.mesh, net.flow.z, net.fd, case["group"]
        kw = feed(net, case["give"])
        if case["order"] == "conn":
            call("get_stream_connectivity", net.s.get_stream_connectivity, **grp(case, group, net.s), **kw)
            kw = {}
        if case["order"] == "seg":
            sd = call("segment_data", net.s.segment_data, **grp(case, group), **kw)
            rd = call("reach_data", net.s.reach_data, **grp(case, group), **kw)
        else:
            rd = call("reach_data", net.s.reach_data, **grp(case, group), **kw)
            sd = call("segment_data", net.s.segment_data, **grp(case, group), **kw)
        arr = np.ravel(net.s.stream_array)
        segs, dn = ref_segments(net, group)
        num = {s0: int(arr[s0]) for s0 in segs}
        check(sorted(num.values()) == list(range(1, len(segs) + 1)), "stream array numbers {} for {} segments", sorted(num.values())[:20], len(segs))
        start = {v: k for k, v in num.items()}
        # segment data
        check([int(v) for v in sd["nseg"]] == list(range(1, len(segs) + 1)), "nseg is {} for {} segments", list(sd["nseg"])[:20], len(segs))
        for v, o in zip(sd["nseg"], sd["outseg"]):
            s0 = start[int(v)]
            exp = 0 if dn[s0] is None else num[dn[s0]]
            check(int(o) == exp, "segment {}: outseg {}, expected {}", v, o, exp)
        # reach data
        exp = []
        for v in range(1, len(segs) + 1):
            for k, c in enumerate(segs[start[v]]):
                exp.append((v, k + 1, c))
        check(len(rd) == len(exp), "reach_data has {} records for {} stream cells", len(rd), len(exp))
        nc = m.shape[1]
        sc = float(np.abs(np.array(m.verts)).max())
        for ix, (v, k, c) in enumerate(exp):
            r = rd[ix]
            got = (int(r["iseg"]), int(r["ireach"]), int(r["node"]), int(r["k"]), int(r["i"]), int(r["j"]), int(r["reachID"]))
            want = (v, k, c, 0, c // nc, c % nc, ix + 1)
            check(got == want, "record {}: (iseg, ireach, node, k, i, j, reachID) = {}, expected {}", ix, got, want)
            d = int(fd[c])
            same(f"strtop of record {ix}", r["strtop"], f4(z[c]), tol=(0, 1e-6))
            if d != c and net.mask[d]:
                L = 1.5 * m.dist(c, d)
                check(abs(r["rchlen"] - L) <= 1e-6 * L + 1e-9 * sc, "record {} (cell {}): rchlen {}, expected {}", ix, c, r["rchlen"], L)
                s = (z[c] - z[d]) / L
                check(abs(r["slope"] - s) <= 1e-6 * abs(s) + 1e-10 + 1e-9 * sc * abs(s) / L or np.isnan(s), "record {} (cell {}): slope {}, expected {}", ix, c, r["slope"], s)
            else:
                L = 1.5 * 0.5 * (case["mesh"]["delr"][c % nc] + case["mesh"]["delc"][c // nc])
                check(abs(r["rchlen"] - L) <= 1e-6 * L, "terminal record {} (cell {}): rchlen {}, expected {}", ix, c, r["rchlen"], L)
                check(r["slope"] > 0, "terminal record {}: slope {}", ix, r["slope"])
            check(r["strthick"] == 1, "record {}: strthick {}", ix, r["strthick"])
        net.unchanged()
        info.nontrivial = len(segs) > 1 and any(len(p) > 1 for p in segs.values())
        net.label(info, case)
        info.label("grouped" if group else "cells", "order_" + case["order"])


# ------------------------------------------------------------------------- C15
@st.composite
def _iru_case(draw, size):
    c = draw(_seg_case(size, who=("sfr2005",)))
    c["pre"] = draw(st.sampled_from(["no", "conn", "graph"]))
    return c


class Irunbnd:
    id = "C15"
    rule = "random conditioned flow network and stream mask; non-trivial when land cells drain to two different segments"

    @staticmethod
    def strategy(tier):
        return _iru_case(_size(tier))

    @staticmethod
    def extra(tier):
        return big_nets(tier, [{"group": g, "pre": p, "kind": "sfr2005"} for g in (True, False) for p in ("no", "graph")])

    @staticmethod
    def run(case, info):
        net = Net(case, "sfr2005")
        kw = feed(net, case["give"])
        if case["pre"] != "no":
            g = call("get_stream_connectivity", net.s.get_stream_connectivity, **grp(case, case["group"], net.s), **kw)
            kw = {}
            if case["pre"] == "graph":
                kw = {"stream_array": net.s.stream_array, "segment_graph": g}
        got = call("irunbnd", net.s.irunbnd, **grp(case, case["group"]), **kw)
        check(np.shape(got) == net.mesh.shape, "irunbnd has shape {}", np.shape(got))
        arr = np.ravel(net.s.stream_array)
        segs, dn = ref_segments(net, case["group"])
        num = {}
        for s0, p in segs.items():
            for c in p:
                num[c] = int(arr[s0])
        check(sorted({num[s0] for s0 in segs}) == list(range(1, len(segs) + 1)), "segments are numbered {}", sorted(set(num.values()))[:20])
        exp = np.zeros(net.n, int)
        for c in range(net.n):
            for d in oracles.walk(net.fd, c):
                if net.mask[d]:
                    exp[c] = num[d]
                    break
        same("irunbnd", np.ravel(got), exp)
        net.unchanged()
        info.nontrivial = len(set(exp[~net.mask]) - {0}) >= 2
        net.label(info, case)
        info.label("grouped" if case["group"] else "cells", "pre_" + case["pre"])


# ------------------------------------------------------------------------- C16 / C17
@st.composite
def _casc_case(draw, size, forms=None, conds=None, nan=0.15):
    kw = {"conds": conds} if conds else {}
    c = draw(net_spec(size=size, forms=forms, nan=nan, **kw))
    n = c["mesh"]["ncell"]
    b = draw(st.sampled_from(["none", "watershed", "watershed", "bits", "subbasin"]))
    c["b"] = b
    if b in ("watershed", "subbasin"):
        c["bc"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2))
    elif b == "bits":
        c["bc"] = draw(gen.ints(n, 0, 3))
    c["bdt"] = draw(st.sampled_from(["int", "int", "bool", "float", "frac"]))
    c["blay"] = draw(st.sampled_from(gen.LAYOUTS))
    c["pre"] = draw(st.sampled_from(["no", "no", "cells", "group", "kw"]))
    return c


def basin(net, case):
    b, m = case["b"], net.mesh
    if b == "none":
        return None
    if b == "bits":
        a = np.array(case["bc"]).reshape(m.shape)
        return gen.lay(bmask(a, case["bdt"]), case["blay"])
    a = np.zeros(net.n, int)
    for k, c in enumerate(case["bc"]):
        a[sorted(oracles.upstream_of(net.fd, c))] = 1 if b == "watershed" else k + 1
    return gen.lay(bmask(a.reshape(m.shape), case["bdt"]), case["blay"])


def prepare_cascades(case):
    net = Net(case, "prms")
    bnd = basin(net, case)
    kw = feed(net, case["give"])
    group = case["pre"] in ("group", "kw")
    if case["pre"] == "kw":
        kw["group_segments"] = True
    elif case["pre"] != "no":
        call("get_stream_connectivity", net.s.get_stream_connectivity, **grp(case, group, net.s), **kw)
    keep = None if bnd is None else bnd.copy()
    return net, bnd, kw, group, keep


def finish_cascades(net, bnd, keep, group, up, dn, pct, strm):
    n = net.n
    check(len(up) == len(dn) == len(pct) == len(strm), "cascade arrays have lengths {} {} {} {}", len(up), len(dn), len(pct), len(strm))
    up, dn = np.asarray(up), np.asarray(dn)
    if len(up):
        check(up.min() >= 1 and up.max() <= n and dn.min() >= 1 and dn.max() <= n, "cascade hru numbers outside of 1..{}", n)
    arr = np.ravel(net.s.stream_array)
    segs, _ = ref_segments(net, group)
    num = {}
    for s0, p in segs.items():
        for c in p:
            num[c] = int(arr[s0])
    check(sorted({num[s0] for s0 in segs}) == list(range(1, len(segs) + 1)), "stream cells are numbered {}", sorted(set(num.values()))[:20])
    for u, d, s in zip(up, dn, strm):
        exp = num.get(int(d) - 1, 0)
        check(int(s) == exp, "link {} -> {}: stream segment {}, expected {}", u, d, s, exp)
    if bnd is not None:
        same("the basin boundary passed by the caller was changed", bnd, keep)
    net.unchanged()


class ManyToOne:
    id = "C16"
    rule = "random conditioned flow network, stream mask and basin mask; non-trivial when the basin has inactive cells and three or more active ones, or three or more links without a basin mask"

    @staticmethod
    def strategy(tier):
        return _casc_case(_size(tier))

    @staticmethod
    def extra(tier):
        yield from big_nets(tier, [dict(b=b, bc=[5], bdt="int", blay="C", pre=p) for b, p in (("none", "no"), ("watershed", "group"))])
        # more segments than a 16-bit number can count
        yield dict(gen.huge_flow(), mask={"f": "all", "dt": "int", "flat": True}, give="arg", cells=True, omit=False, b="none", bc=[5],
                   bdt="int", blay="C", pre="no")

    @staticmethod
    def run(case, info):
        net, bnd, kw, group, keep = prepare_cascades(case)
        up, dn, pct, strm = call("get_cascades", net.s.get_cascades, basin_boundary=bnd, **kw)
        act = np.ones(net.n, bool) if bnd is None else np.ravel(bnd) != 0
        got = collections.Counter((int(u) - 1, int(d) - 1) for u, d in zip(up, dn))
        exp, share = {}, collections.Counter()
        for c in np.where(act)[0]:
            share[int(net.fd[c])] += 1
        for c in np.where(act)[0]:
            d = int(net.fd[c])
            exp[(int(c), d if act[d] else int(c))] = share[d]
        extra = [k for k in got if k not in exp]
        miss = [k for k in exp if k not in got]
        check(not extra, "cascade link (cell {} -> cell {}) is not along the flow direction inside of the basin", *(extra[0] if extra else (0, 0)))
        check(not miss, "no cascade link for cell {} -> cell {}", *(miss[0] if miss else (0, 0)))
        dup = False
        for k, v in got.items():
            if v != 1:
                check(v == exp[k], "cascade link {} -> {} is listed {} times ({} cells share its downstream cell)", k[0], k[1], v, exp[k])
                dup = True
        if dup:
            info.known.append("m2o-duplicate-links")
        check((np.asarray(pct, float) == 1.0).all() if len(pct) else True, "many to one fractions are {}", sorted(set(np.asarray(pct, float)))[:5])
        finish_cascades(net, bnd, keep, group, up, dn, pct, strm)
        na = int(act.sum())
        info.nontrivial = na >= 3 and (bnd is None or na < net.n)
        net.label(info, case)
        info.label("b_" + case["b"], "pre_" + case["pre"], "dup" if dup else "unique")


class ManyToMany:
    id = "C17"
    rule = "random conditioned flow network, stream mask and basin mask; non-trivial when a land cell has links to two or more lower neighbours"

    @staticmethod
    def strategy(tier):
        return _casc_case(_size(tier), forms=("facc", "bits", "closed", "closed", "one"), conds=("strict", "strict", "strict", "flat"))

    @staticmethod
    def extra(tier):
        yield from big_nets(tier, [dict(b=b, bc=[5], bdt="int", blay="C", pre=p) for b, p in (("none", "no"), ("watershed", "group"))])
        # more segments than a 16-bit number can count
        yield dict(gen.huge_flow(), mask={"f": "all", "dt": "int", "flat": True}, give="arg", cells=True, omit=False, b="none", bc=[5],
                   bdt="int", blay="C", pre="no")

    @staticmethod
    def run(case, info):
        net, bnd, kw, group, keep = prepare_cascades(case)
        m, z, fd = net.mesh, net.flow.z, net.fd
        up, dn, pct, strm = call("get_cascades(many2many)", net.s.get_cascades, basin_boundary=bnd, many2many=True, **kw)
        act = np.ones(net.n, bool) if bnd is None else np.ravel(bnd) != 0
        links = collections.defaultdict(dict)
        for u, d, p in zip(up, dn, pct):
            u, d = int(u) - 1, int(d) - 1
            check(d not in links[u], "link cell {} -> cell {} is listed twice", u, d)
            links[u][d] = float(p)
        multi = False
        for c in range(net.n):
            got = links.get(c, {})
            if not act[c]:
                check(not got, "cell {} outside of the basin has links {}", c, got)
                continue
            out = [d for d in got if not act[d]]
            check(not out, "link from cell {} leaves the basin to {}", c, out)
            if net.mask[c]:
                d = int(fd[c])
                exp = {d if act[d] else c: 1.0}
                check(got == exp, "stream cell {} has links {}, expected {}", c, got, exp)
                continue
            if net.flow.nan[c] or fd[c] == c:
                continue
            check(all(d in net.flow.nb[c] and z[d] <= z[c] for d in got), "land cell {} has links {} that are not to lower neighbours", c, got)
            w = {k: -oracles.slope_to(z, m.x, m.y, c, k) for k in net.flow.nb[c] if act[k] and z[k] < z[c]}
            tot = sum(w.values())
            if not w:
                check(not got, "land cell {} has no lower active neighbour but links {}", c, got)
                continue
            fr = {k: v / tot for k, v in w.items()}
            if any(abs(v - 0.01) < 1e-6 for v in fr.values()):
                info.label("near_one_percent")
                continue
            kept = {k: v for k, v in fr.items() if v > 0.01}
            if len(kept) < len(fr):
                info.label("dropped_small")
            t2 = sum(kept.values())
            check(set(got) == set(kept), "land cell {} has links to {}, expected {}", c, sorted(got), sorted(kept))
            for k in kept:
                check(abs(got[k] - kept[k] / t2) <= 1e-6, "fraction from cell {} to {} is {}, expected {}", c, k, got[k], kept[k] / t2)
            check(abs(sum(got.values()) - 1.0) <= 1e-9, "fractions of land cell {} add up to {}", c, sum(got.values()))
            multi |= len(kept) > 1
        finish_cascades(net, bnd, keep, group, up, dn, pct, strm)
        info.nontrivial = multi
        net.label(info, case)
        info.label("b_" + case["b"], "pre_" + case["pre"])


# ------------------------------------------------------------------------- C21
@st.composite
def _vec_case(draw, size):
    c = draw(_seg_case(size, who=("sfr2005", "prms", "sfr6")))
    c["pre"] = draw(st.sampled_from(["no", "no", "conn"]))
    c["nanland"] = draw(st.booleans())
    return c


class Vectors:
    id = "C21"
    rule = "random conditioned flow network and stream mask; non-trivial when two or more segments have a line"

    @staticmethod
    def strategy(tier):
        return _vec_case(_size(tier))

    @staticmethod
    def extra(tier):
        return big_nets(tier, huge=183, more=[{"group": g, "kind": k, "pre": "no", "nanland": False} for g, k in
                               ((True, "sfr2005"), (False, "prms"), (True, "sfr6"))])

    @staticmethod
    def run(case, info):
        net = Net(case, case["kind"])
        m, group = net.mesh, case["group"]
        if case["nanland"] and case["mask"]["dt"] in ("float", "f4") and case["give"] == "arg":
            net.arr = np.where(np.ravel(net.arr) == 0, np.nan, np.ravel(net.arr)).astype(net.arr.dtype).reshape(net.arr.shape)
            net.arr = gen.lay(net.arr, case["mask"]["lay"])
            net.before = net.arr.copy()
            info.label("nan_land")
        else:
            case = dict(case, nanland=False)
        kw = feed(net, case["give"])
        state = None
        if case["pre"] == "conn" and not case["nanland"]:
            g0 = call("get_stream_connectivity", net.s.get_stream_connectivity, **kw)
            state = (dict(g0), np.copy(net.s.stream_array))
        vec = call("create_stream_vectors", net.s.create_stream_vectors, **grp(case, group), **kw)
        segs, dn = ref_segments(net, group)
        lines = {}
        for s0, path in segs.items():
            line = list(path)
            if dn[s0] is not None:
                line.append(dn[s0])
            lines[s0] = line
        want = {s0: l for s0, l in lines.items() if len(set(l)) > 1}
        sc = 1e-9 * (1 + float(np.abs(np.array(m.verts)).max()))
        used = set()
        for seg, pts in vec.items():
            hit = None
            for s0, l in lines.items():
                if s0 in used or len(l) != len(pts):
                    continue
                if all(abs(p[0] - m.x[c]) <= sc and abs(p[1] - m.y[c]) <= sc for p, c in zip(pts, l)):
                    hit = s0
                    break
            check(hit is not None, "line {} with {} vertices does not follow the cells of a segment and the first cell of the downstream one: {}", seg, len(pts), [tuple(map(float, p)) for p in pts][:6])
            used.add(hit)
        miss = [s0 for s0 in want if s0 not in used]
        check(not miss, "no line for the segment of cells {}", lines[miss[0]] if miss else None)
        check(all(1 <= int(s) <= len(segs) for s in vec), "line keys {} for {} segments", sorted(vec)[:10], len(segs))
        if case["kind"] == "sfr2005":
            s2 = call("Sfr2005()", dany.Sfr2005, net.grid, net.fo)
            call("get_stream_connectivity", s2.get_stream_connectivity, np.where(net.mask, 1, 0), **grp(case, group, s2))
            arr = np.ravel(s2.stream_array)
            for seg, pts in vec.items():
                c = int(np.argmin((m.x - pts[0][0]) ** 2 + (m.y - pts[0][1]) ** 2))
                check(int(arr[c]) == int(seg), "line {} starts in cell {} of segment {}", seg, c, arr[c])
        if state is not None:
            same("stream array after create_stream_vectors", net.s.stream_array, state[1])
        net.unchanged()
        info.nontrivial = len(want) > 1
        net.label(info, case)
        info.label(case["kind"], "grouped" if group else "cells", "pre_" + case["pre"])


# ------------------------------------------------------------------------- C22
@st.composite
def _ctl_case(draw, size):
    c = draw(gen.flow_spec(size=size))
    n = c["mesh"]["ncell"]
    c["pts"] = [[draw(st.integers(0, n - 1)), draw(st.integers(0, 7)), draw(st.sampled_from([0, 30, 60]))]
                for _ in range(draw(st.integers(1, 3)))]
    c["cells"] = draw(st.booleans())
    c["cthr"] = draw(st.sampled_from([0, 0.0, 50, 1e6, 12.5]))
    c["omit"] = draw(st.booleans())
    c["kind"] = draw(st.sampled_from(sorted(CLS)))
    return c


class Control:
    id = "C22"
    rule = "random conditioned flow network and 1-3 control points; non-trivial when a trace has three or more cells and does not cover the grid"

    @staticmethod
    def strategy(tier):
        return _ctl_case(_size(tier))

    @staticmethod
    def extra(tier):
        for c in gen.big_flows(tier):
            n = c["mesh"]["ncell"]
            yield dict(c, pts=[[n // 2, 0, 0], [3, 1, 30]], cells=True, cthr=1e6, kind="sfr6")

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        grid = m.grid()
        fo = make_fo(flow, grid, acc=case["cells"])
        fd = fdir_of(fo)
        valid_fdir(flow, fd)
        facc = np.asarray(fo.flow_accumulation_array, float).ravel().copy()
        s = call("streams", CLS[case["kind"]], grid, fo)
        thr = case["cthr"]
        got = call("threshold_from_control_points", s.threshold_from_control_points, [m.pt(*p) for p in case["pts"]],
                   **({} if case.get("omit") and thr == 0 and isinstance(thr, int) else {"threshold": thr}))
        check(np.shape(got) == m.shape, "threshold array has shape {}", np.shape(got))
        got = np.ravel(got).astype(float)
        up = oracles.upstream_sets(fd)
        # an integer background threshold gives an integer array (values are truncated)
        tol = 1.0 if isinstance(thr, int) else 1e-9 * max(1.0, facc.max())
        traced = np.array([abs(got[c] - (facc[c] - 5)) <= tol for c in range(m.n)])
        # cells that must be on a trace: follow the largest inflow, ties may go either way
        may, must = set(), set()
        for p in case["pts"]:
            front = {p[0]}
            sure = True
            while front:
                may |= front
                if len(front) > 1:
                    sure = False
                if sure:
                    must |= front
                nxt = set()
                for c in front:
                    if up[c]:
                        top = max(facc[k] for k in up[c])
                        nxt |= {k for k in up[c] if facc[k] >= top - 1e-9 * top}
                front = nxt - may if not sure else nxt
        for c in must:
            check(traced[c], "cell {} is on the trace of a control point but has threshold {}, accumulation {}", c, got[c], facc[c])
        for c in range(m.n):
            if c not in may:
                check(got[c] == thr, "cell {} is on no trace but has threshold {}, expected {}", c, got[c], thr)
            else:
                check(traced[c] or got[c] == thr, "cell {} has threshold {}", c, got[c])
        # a trace is connected: each traced cell is a control point or flows into a traced cell
        pts = {p[0] for p in case["pts"]}
        for c in range(m.n):
            if traced[c] and got[c] != thr and c not in pts:
                check(traced[fd[c]], "traced cell {} flows to {}, which is not on the trace", c, fd[c])
        # and runs up to a headwater
        for c in range(m.n):
            if traced[c] and got[c] != thr and up[c]:
                check(any(traced[k] for k in up[c]), "the trace stops in cell {} although cells {} flow into it", c, up[c])
        # the traced cells are streams at the returned thresholds
        st_ = np.ravel(call("delineate_streams", s.delineate_streams, got))
        for c in must:
            check(st_[c] == 1, "traced cell {} is not delineated with the returned thresholds", c)
        same("flow accumulation", np.ravel(fo.flow_accumulation_array), facc)
        info.nontrivial = 3 <= len(must) and len(may) < m.n
        info.label(m.kind, m.spec["mesh"], case["kind"], "int" if isinstance(thr, int) else "float")


# ------------------------------------------------------------------------- C23
OVER = {
    "reach": {"strhc1": [0.5, 3.0], "strthick": [2.0, 0.25]},
    "segment": {"etsw": [0.5], "flow": [0.0, 2.5], "icalc": [2], "iprior": [1], "pptsw": [0.125], "roughch": [0.05],
                "runoff": [0.5], "width1": [3.0], "width2": [4.0]},
    "pgs": {"default_slope": [0.01, 0.25], "min_slope": [0.001, 0.02], "max_slope": [0.5, 0.05]},
}
BASE = {
    "reach": {"strhc1": 1.0, "strthick": 1.0},
    "segment": {"etsw": 0.0, "flow": 1.0, "icalc": 1, "iprior": 0, "pptsw": 0.0, "roughch": 0.025, "runoff": 0.0,
                "width1": 10, "width2": 10},
    "pgs": {"default_slope": 0.001, "min_slope": 0.0001, "max_slope": 1},
}


@st.composite
def _bld_case(draw, size):
    which = draw(st.sampled_from(["prms", "sfr"]))
    c = draw(_casc_case(size)) if which == "prms" else draw(_seg_case(size, kinds=("structured",), who=("sfr2005",)))
    c["which"] = which
    c["group"] = draw(st.booleans())
    if which == "prms":
        c["m2m"] = draw(st.booleans())
    else:
        kw = {}
        for sec in sorted(OVER):
            for k in sorted(OVER[sec]):
                if draw(st.integers(0, 5)) == 0:
                    kw[k] = draw(st.sampled_from(OVER[sec][k]))
        c["kw"] = kw
        c["given"] = draw(st.sampled_from([[], [], ["r"], ["s"], ["i"], ["r", "s", "i"]]))
        c["defaults"] = draw(st.sampled_from([True, True, True, False]))
        c["bad"] = draw(st.integers(0, 5)) == 0
        if "s" in c["given"] and c["defaults"]:
            # outsegs rewritten by the user
            c["edit"] = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=3))
    return c


def roundtrip(obj, cls):
    f = os.path.join(boot.SCRATCH, f"obj_{os.getpid()}.bin")
    # an earlier file of another object is replaced
    old = call("PygsflowStreams()", dany.stream_util.PygsflowStreams, [1, 2], "a" * 5000, None)
    call("write (earlier object)", old.write, f)
    f = pathlib.Path(f) if len(vars(obj)) > 5 else f
    call("write", obj.write, f)
    back = call("read", cls.read, f)
    check(type(back) is type(obj), "read returned a {}", type(back).__name__)
    check(sorted(vars(back)) == sorted(vars(obj)), "fields {} after read, {} written", sorted(vars(back)), sorted(vars(obj)))
    for k, v in vars(obj).items():
        w = getattr(back, k)
        if isinstance(v, np.ndarray) and v.dtype.names:
            check(w.dtype == v.dtype, "field {} has another dtype after read", k)
            for f_ in v.dtype.names:
                same(f"{k}.{f_} after read", w[f_], v[f_])
        elif isinstance(v, np.ndarray):
            same(f"{k} after read", w, v)
        else:
            check(w == v, "field {} is {} after read, {} written", k, w, v)
    os.remove(f)


def _equal_rec(what, got, exp):
    for f in exp.dtype.names:
        same(f"{what}: {f}", got[f], exp[f])



def routed(rd, sd, ix):
    """cell of the reach below reach ix by the tables, its own cell below the last"""
    seg, rch = int(rd["iseg"][ix]), int(rd["ireach"][ix])
    for s, r in ((seg, rch + 1), (int(sd["outseg"][sd["nseg"] == seg][0]), 1)):
        hit = (rd["iseg"] == s) & (rd["ireach"] == r)
        if hit.any():
            return int(rd["node"][hit][0])
    return int(rd["node"][ix])


class Builder:
    id = "C23"
    rule = "random conditioned flow network, stream mask and keyword overrides; non-trivial when three or more stream cells exist"

    @staticmethod
    def strategy(tier):
        return _bld_case(_size(tier))

    @staticmethod
    def extra(tier):
        for c in big_nets(tier, kinds=("structured",), huge=183):
            for g in (True, False):
                yield dict(c, which="sfr", group=g, kw={}, given=[], defaults=True, bad=False)
                yield dict(c, which="prms", group=g, m2m=not g, b="none", bdt="int", blay="C", pre="no")

    @staticmethod
    def run(case, info):
        (Builder._prms if case["which"] == "prms" else Builder._sfr)(case, info)

    @staticmethod
    def _prms(case, info):
        net = Net(case, "prms")
        bnd = basin(net, case)
        kw = feed(net, case["give"])
        if case["pre"] != "no":
            call("get_stream_connectivity", net.s.get_stream_connectivity, **grp(case, case["pre"] == "group", net.s), **kw)
        obj = call("get_pygsflow_builder_object", net.s.get_pygsflow_builder_object, basin_boundary=bnd,
                   **grp(case, case["group"]), **({} if case.get("omit") and not case["m2m"] else {"many2many": case["m2m"]}), **kw)
        s2 = call("PrmsStreams()", dany.PrmsStreams, net.grid, net.fo)
        g = call("get_stream_connectivity", s2.get_stream_connectivity, net.arr, **grp(case, case["group"], s2))
        up, dn, pct, strm = call("get_cascades", s2.get_cascades, basin_boundary=bnd, many2many=case["m2m"])
        same("hru_up_id", obj.hru_up_id, up)
        same("hru_down_id", obj.hru_down_id, dn)
        same("hru_pct_up", obj.hru_pct_up, pct)
        same("hru_strmseg_down_id", obj.hru_strmseg_down_id, strm)
        check(obj.ncascade == len(up), "ncascade {} for {} links", obj.ncascade, len(up))
        check(obj.cascade_flag == (0 if case["m2m"] else 1), "cascade_flag {} with many2many={}", obj.cascade_flag, case["m2m"])
        check(obj.nsegments == len(g), "nsegments {} for {} segments", obj.nsegments, len(g))
        check(obj.nreaches == int(net.mask.sum()), "nreaches {} for {} stream cells", obj.nreaches, int(net.mask.sum()))
        segs, _ = ref_segments(net, case["group"])
        check(len(segs) == obj.nsegments, "nsegments {} for {} segments", obj.nsegments, len(segs))
        same("hru_slope", np.ravel(obj.hru_slope), np.ravel(net.fo.slope))
        same("hru_aspect", np.ravel(obj.hru_aspect), np.ravel(net.fo.aspect))
        same("hru_area", np.ravel(obj.hru_area), net.mesh.area, tol=(1e-13 * float(max(np.abs(np.array(net.mesh.verts)).max(), 1.0)) ** 2, 1e-9))
        check(obj.dany_flag is True, "dany_flag {}", obj.dany_flag)
        roundtrip(obj, type(obj))
        net.unchanged()
        info.nontrivial = int(net.mask.sum()) >= 3
        net.label(info, case)
        info.label("prms", "m2m" if case["m2m"] else "m2o", "grouped" if case["group"] else "cells", "b_" + case["b"])

    @staticmethod
    def _sfr(case, info):
        net = Net(case, "sfr2005")
        m, z, fd, group = net.mesh, net.flow.z, net.fd, case["group"]
        call("get_stream_connectivity", net.s.get_stream_connectivity, net.arr, **grp(case, group, net.s))
        if case["bad"]:
            try:
                call("get_pygsflow_builder_object(unknown=1)", net.s.get_pygsflow_builder_object, nosuchkeyword=1, _allow=KeyError)
            except KeyError:
                pass
            else:
                check(False, "an unknown keyword was accepted")
        rd = call("reach_data", net.s.reach_data)
        sd = call("segment_data", net.s.segment_data)
        ib = call("irunbnd", net.s.irunbnd)
        rd0, sd0 = rd.copy(), sd.copy()
        given = {}
        if "r" in case["given"]:
            given["reach_data"] = rd.copy()
        if "s" in case["given"]:
            for row, to in case.get("edit", ()) if len(sd) else ():
                sd["outseg"][row % len(sd)] = 0 if to == 9 else sd["nseg"][to % len(sd)]
            sd0 = sd.copy()
            given["segment_data"] = sd.copy()
        if "i" in case["given"]:
            given["irunbnd"] = ib.copy()
        if not case["given"]:
            s2 = call("Sfr2005()", dany.Sfr2005, net.grid, net.fo)
            call("set_stream_array", s2.set_stream_array, net.arr)
        else:
            s2 = net.s
        kw = dict(case["kw"])
        obj = call("get_pygsflow_builder_object", s2.get_pygsflow_builder_object,
                   **({} if case["defaults"] and case.get("omit") else {"apply_defaults": case["defaults"]}), **grp(case, group), **given, **kw)
        if "r" in case["given"]:
            _equal_rec("the reach data passed by the caller", given["reach_data"], rd0)
        if "s" in case["given"]:
            _equal_rec("the segment data passed by the caller", given["segment_data"], sd0)
        same("irunbnd of the builder object", obj.irunbnd, ib)
        check(len(obj.reach_data) == len(rd0), "{} reaches, expected {}", len(obj.reach_data), len(rd0))
        check(len(obj.segment_data) == len(sd0), "{} segments, expected {}", len(obj.segment_data), len(sd0))
        d = {s: dict(v) for s, v in BASE.items()}
        for k, v in kw.items():
            for s in d:
                if k in d[s]:
                    d[s][k] = v
        seg_f = d["segment"] if case["defaults"] else {}
        rch_f = d["reach"] if case["defaults"] else {}
        for f in sd0.dtype.names:
            exp = np.full(len(sd0), seg_f[f]).astype(sd0.dtype[f]) if f in seg_f else sd0[f]
            same(f"segment_data.{f}", obj.segment_data[f], exp)
        skip = {"strtop", "slope"} if case["defaults"] else set()
        for f in rd0.dtype.names:
            if f in skip:
                continue
            exp = np.full(len(rd0), rch_f[f]).astype(rd0.dtype[f]) if f in rch_f else rd0[f]
            same(f"reach_data.{f}", obj.reach_data[f], exp)
        if case["defaults"]:
            lo, hi, de = d["pgs"]["min_slope"], d["pgs"]["max_slope"], d["pgs"]["default_slope"]
            for ix, r in enumerate(obj.reach_data):
                c = int(rd0["node"][ix])
                k = int(fd[c])
                if case.get("edit"):
                    k = routed(rd0, sd0, ix)
                s = (z[c] - z[k]) / m.dist(c, k) if k != c and net.mask[k] else de
                if not np.isnan(z[c]) and not np.isnan(z[k]):
                    s = hi if s > hi else (lo if s < lo else s)
                    same(f"strtop of reach {ix}", r["strtop"], f4(z[c]), tol=(0, 1e-6))
                    check(abs(r["slope"] - s) <= 1e-5 * abs(s) + 1e-9, "slope of reach {} (cell {}) is {}, expected {}", ix, c, r["slope"], s)
        check(obj.dany_flag is True, "dany_flag {}", obj.dany_flag)
        roundtrip(obj, type(obj))
        if kw:
            # overrides hold for one call
            s3 = call("Sfr2005()", dany.Sfr2005, net.grid, net.fo)
            call("set_stream_array", s3.set_stream_array, net.arr)
            obj = call("get_pygsflow_builder_object", s3.get_pygsflow_builder_object, **grp(case, group))
            for f, v in BASE["segment"].items():
                same(f"segment_data.{f} of a later call without overrides", obj.segment_data[f], np.full(len(sd0), v).astype(sd0.dtype[f]))
            for f, v in BASE["reach"].items():
                same(f"reach_data.{f} of a later call without overrides", obj.reach_data[f], np.full(len(rd0), v).astype(rd0.dtype[f]))
        net.unchanged()
        info.nontrivial = int(net.mask.sum()) >= 3
        net.label(info, case)
        if case.get("edit"):
            info.label("edited_outseg")
        info.label("sfr", "grouped" if group else "cells", "defaults" if case["defaults"] else "raw", "override" if kw else "plain")


PROPS = [Delineate, Mf6Graph, PackageData, Segments, ReachData, Irunbnd, ManyToOne, ManyToMany, Vectors, Control, Builder]
