"""C26 (packages written by flopy) and C27 (DEMs with pits)."""
import boot  # noqa: F401
import collections
import os
import types

import dany
import flopy
import numpy as np
from hypothesis import strategies as st

import gen
import oracles
from core import Violation, call, check, same
from mesh import Mesh
from props_flow import earlier, fdir_of, flat_ok
from props_streams import big_nets, CLS, Net, _size, feed, mask_array, mask_of, mask_spec, net_spec, ref_segments


# ------------------------------------------------------------------------- C27
@st.composite
def _pit_case(draw, size):
    ms = draw(gen.mesh_spec(size=size))
    n = ms["ncell"]
    c = {"mesh": ms, "e": draw(gen.elev(n, [2, 6, 20, 1000, 1000, 100000], nan=0.15))}
    c["cond"] = draw(st.sampled_from(["raw", "default", "default", "complete", "drain"]))
    c["eps"] = draw(st.sampled_from([None, None, 1e-3, 0.5]))
    if draw(st.integers(0, 2)) == 0:
        c["term"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
    c["pts"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
    m = draw(mask_spec(n, ("facc", "facc", "facc", "closed", "all")))
    m["dt"] = "int"
    c["mask"] = m
    c["cells"] = draw(st.booleans())
    c["group"] = draw(st.booleans())
    c["lay"] = draw(st.sampled_from(gen.LAYOUTS))
    if draw(st.integers(0, 3)) == 0:
        c["thr"] = draw(st.sampled_from([0.0, 1e-9, 1e-3, 0.5, 10.0]))
    if draw(st.integers(0, 2)) == 0:
        c["past"] = draw(gen.past_spec(n))
    return c


def loops_of(fd):
    """cells on a closed path of two or more cells -> number of the loop"""
    n = len(fd)
    color, loop, k = [0] * n, {}, 0
    for c in range(n):
        path = []
        while color[c] == 0:
            color[c] = 1
            path.append(c)
            c = int(fd[c])
        if color[c] == 1 and int(fd[c]) != c:
            x = c
            while x not in loop:
                loop[x] = k
                x = int(fd[x])
            k += 1
        for x in path:
            color[x] = 2
    return loop


def safe_walk(fd, c):
    out, seen = [], set()
    while c not in seen:
        seen.add(c)
        out.append(c)
        c = int(fd[c])
    return out


class Pits:
    id = "C27"
    rule = (
        "random mesh and relief with pits: unconditioned or filled without terminal cells, so that the pits on the "
        "boundary stay; non-trivial when a pit (no lower neighbour, not terminal) exists and three or more cells drain to one point"
    )

    @staticmethod
    def strategy(tier):
        return _pit_case(_size(tier))

    @staticmethod
    def run(case, info):
        m = Mesh(case["mesh"])
        grid = m.grid()
        z = gen.elev_array(case["e"])
        if np.isnan(z).all():
            z[0] = case["e"]["base"]
        if case["cond"] != "raw":
            if case["cond"] == "drain":
                z = np.where(np.isnan(z), case["e"]["base"], z)
            meth = {"default": "priority"}.get(case["cond"], case["cond"])
            kw = {} if case["eps"] is None else {"eps": case["eps"]}
            z = np.ravel(call("fill_sinks", dany.fill_sinks, grid, z.reshape(m.shape), method=meth, **kw)).astype(float)
        dem = gen.lay(z.reshape(m.shape), case["lay"])
        nan = np.isnan(z)
        fo = call("FlowDirections()", dany.FlowDirections, grid, dem, check_elevations=False)
        kw = {"terminal_cells": list(case["term"])} if "term" in case else {}
        if "thr" in case:
            kw["burn_threshold"] = case["thr"]
        if case.get("past"):
            earlier(fo, m, case["past"])
        out = call("flow_directions()", fo.flow_directions, **kw)
        check(np.shape(out) == m.shape, "flow_directions returned shape {}", np.shape(out))
        if case.get("past"):
            new = call("FlowDirections()", dany.FlowDirections, grid, dem, check_elevations=False)
            kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
            same("flow directions after earlier calls, and of a new object", out, call("flow_directions() (new object)", new.flow_directions, **kw))
        fd = np.ravel(out).astype(int)
        term = set(case.get("term", ())) | set(np.where(z == np.nanmin(z))[0].tolist())
        pits = 0
        for c in range(m.n):
            d = int(fd[c])
            nb = [k for k in m.nb[c] if not nan[k]]
            check(d == c or d in nb, "cell {} flows to {}, which is neither itself nor a neighbour", c, d)
            pits += not nan[c] and c not in term and all(z[k] > z[c] for k in nb)
            if c in term or nan[c]:
                check(d == c, "terminal cell {} flows to {}", c, d)
        loop = loops_of(fd)
        # a loop runs through a pit or a closed flat: not every cell on it can step down
        for k in set(loop.values()):
            cells = [c for c in loop if loop[c] == k]
            check(any(all(z[j] >= z[c] for j in m.nb[c] if not nan[j]) for c in cells),
                  "loop {} although each of its cells has a lower neighbour", cells[:6])
        if case["cond"] in ("default", "drain") and not nan.any():
            edge = set(m.edge)
            for c in range(m.n):
                p = safe_walk(fd, c)
                last = int(p[-1])
                end = [x for x in loop if loop[x] == loop[last]] if last in loop else [last]
                check(term & set(end) or edge & set(end), "cell {} of a filled dem drains to {}, away from boundary and outlets", c, end[:5])
        flat_ok(m, z, fd, term, case.get("thr", 1e-6))
        # accumulation
        deg = np.bincount(fd, minlength=m.n)
        same("number of inflowing cells", call("get_nidp", fo.get_nidp), deg)
        acc = np.ravel(call("flow_accumulation", fo.flow_accumulation, as_cells=case["cells"]))
        w = np.ones(m.n) if case["cells"] else m.area
        tol = 0.0 if case["cells"] else 1e-13 * float(max(np.abs(np.array(m.verts)).max(), 1.0)) ** 2 * m.n
        ups = {c: sorted(oracles.upstream_of(fd, c)) for c in range(m.n)}
        for c in range(m.n):
            exp = float(w[ups[c]].sum())
            if c not in loop:
                check(abs(acc[c] - exp) <= tol + 1e-9 * exp, "accumulation of cell {} is {}, the cells draining to it have {}", c, acc[c], exp)
            else:
                check(w[c] - tol - 1e-9 * exp <= acc[c] <= exp + tol + 1e-9 * exp, "accumulation of loop cell {} is {}, at most {} drain to it", c, acc[c], exp)
        # watersheds and subbasins
        for c in case["pts"]:
            exp = np.zeros(m.n, int)
            exp[ups[c]] = 1
            same(f"watershed of cell {c}", np.ravel(call("get_watershed_boundary", fo.get_watershed_boundary, m.pt(c))), exp)
        cells = sorted(set(case["pts"]))
        sub = np.ravel(call("get_subbasins", fo.get_subbasins, [m.pt(c) for c in case["pts"]]))
        on = [loop[c] for c in cells if c in loop]
        if len(on) == len(set(on)):
            num = {c: int(sub[c]) for c in cells}
            check(sorted(num.values()) == list(range(1, len(cells) + 1)), "pour points {} have the subbasins {}", cells, list(num.values()))
            exp = np.array([next((num[d] for d in safe_walk(fd, c) if d in num), 0) for c in range(m.n)])
            same("subbasins", sub, exp)
        # control points: traces follow the largest inflow, also into and around a loop
        inflow = oracles.upstream_sets(fd)
        ctl = call("streams", CLS["prms"], grid, fo)
        got = np.ravel(call("threshold_from_control_points", ctl.threshold_from_control_points, [m.pt(c) for c in case["pts"]], threshold=1e12)).astype(float)
        on = got != 1e12
        for c in np.where(on)[0]:
            check(abs(got[c] - (acc[c] - 5)) <= 1e-9 * max(1.0, acc[c]), "cell {} is on a trace and has threshold {}, accumulation {}", c, got[c], acc[c])
            check(c in case["pts"] or on[fd[c]], "cell {} is on a trace, the cell {} that it flows to is not", c, fd[c])
            ins = [k for k in inflow[c] if k != c]
            top = max((acc[k] for k in ins), default=0.0)
            check(not ins or any(on[k] and acc[k] >= top * (1 - 1e-9) for k in ins), "the trace stops in cell {} although cells {} flow into it", c, ins)
        check(all(on[c] for c in case["pts"]), "control points {} are not on a trace", case["pts"])
        # geometry
        slope = np.ravel(call("slope", lambda: fo.slope))
        for c in range(m.n):
            d = int(fd[c])
            drop = 0.0 if d == c else z[c] - z[d]
            s = 0.0 if d == c or 0 < drop < 1e-6 else drop / m.dist(c, d)
            check(abs(slope[c] - s) <= 1e-12 + 1e-9 * abs(s), "slope of cell {} is {}, expected {}", c, slope[c], s)
        call("aspect", lambda: fo.aspect)
        call("vectors", lambda: fo.vectors)
        check(np.isfinite(np.ravel(call("hru_len", lambda: fo.hru_len))).all(), "hru_len is not finite")
        # streams
        if case["mask"]["f"] == "facc":
            a = acc if case["cells"] else np.array([len(ups[c]) for c in range(m.n)])
            mask = a >= case["mask"]["k"]
        elif case["mask"]["f"] == "closed":
            mask = np.zeros(m.n, bool)
            for c in case["mask"]["c"]:
                mask[safe_walk(fd, c)] = True
        else:
            mask = np.ones(m.n, bool)
        if not mask.any():
            mask[0] = True
        sc = float(np.abs(np.array(m.verts)).max())
        net = types.SimpleNamespace(mesh=m, fd=fd, mask=mask, n=m.n)
        cells = [int(c) for c in np.where(mask)[0]]
        for who in ("sfr6", "prms", "sfr2005"):
            if who == "sfr2005" and m.kind != "structured":
                continue
            arr = mask_array(case["mask"], mask, m.shape)
            s = call(f"{who}()", CLS[who], grid, fo)
            if who == "sfr6":
                g = call("get_stream_connectivity", s.get_stream_connectivity, arr)
                num = np.ravel(s.stream_array)
                _cells_numbered(who, num, mask, g, fd, loop)
                conn = call("connectiondata", s.connectiondata)
                _reciprocal(conn, len(cells))
                pk = call("packagedata", s.packagedata)
                check([int(v) for v in pk["ifno"]] == list(range(len(cells))), "packagedata lists reaches {} for {} stream cells", list(pk["ifno"])[:10], len(cells))
                same("connections per reach", pk["ncon"], np.array([len(r) - 1 for r in conn]))
                for c in cells:
                    d = int(fd[c])
                    if d != c and mask[d]:
                        r = pk[int(num[c]) - 1]
                        L = 1.5 * m.dist(c, d)
                        check(abs(r["rlen"] - L) <= 1e-6 * L + 1e-9 * sc, "reach of cell {}: rlen {}, expected {}", c, r["rlen"], L)
                        same(f"elevation of the reach of cell {c}", float(r["rtp"]), float(z[c]), tol=(1e-9, 1e-6))
                continue
            group = case["group"]
            g = call("get_stream_connectivity", s.get_stream_connectivity, arr, group_segments=group)
            num = np.ravel(s.stream_array)
            if not group:
                if who == "prms":
                    _cells_numbered(who, num, mask, g, fd, loop)
            check(((num > 0) == mask).all(), "{}: cells {} are stream cells and have no segment (or the reverse)", who, np.where((num > 0) != mask)[0][:5])
            check(sorted(g) == list(range(1, len(g) + 1)), "{}: segments {}", who, sorted(g)[:10])
            check(set(num[mask].tolist()) == set(g), "{}: segments {} in the array, {} in the graph", who, sorted(set(num[mask].tolist()))[:10], sorted(g)[:10])
            for c in cells:
                d = int(fd[c])
                ok = {int(g[num[c]])} | {int(num[c])} if mask[d] else {0}
                got = int(num[d]) if mask[d] else int(g[num[c]])
                check(got in ok, "{}: cell {} (segment {}) flows to cell {} (segment {}), the graph says {}", who, c, num[c], d, num[d], g[num[c]])
            if who == "sfr2005":
                rd = call("reach_data", s.reach_data, group_segments=group)
                check(sorted(int(v) for v in rd["node"]) == cells, "reach_data lists {} of {} stream cells", len(rd), len(cells))
                same("iseg", rd["iseg"], num[np.array(rd["node"], int)])
                for r in rd:
                    c = int(r["node"])
                    d = int(fd[c])
                    if d != c and mask[d]:
                        L = 1.5 * m.dist(c, d)
                        check(abs(r["rchlen"] - L) <= 1e-6 * L + 1e-9 * sc, "reach at cell {}: rchlen {}, expected {}", c, r["rchlen"], L)
                        sl = (z[c] - z[d]) / L
                        check(abs(r["slope"] - sl) <= 1e-6 * abs(sl) + 1e-10 + 1e-9 * sc * abs(sl) / L or np.isnan(sl), "reach at cell {}: slope {}, expected {}", c, r["slope"], sl)
                sd = call("segment_data", s.segment_data, group_segments=group)
                check([(int(a), int(b)) for a, b in zip(sd["nseg"], sd["outseg"])] == sorted((int(a), int(b)) for a, b in g.items()), "segment_data differs from the segment graph")
                ib = np.ravel(call("irunbnd", s.irunbnd, group_segments=group))
                exp = np.array([next((num[d] for d in safe_walk(fd, c) if mask[d]), 0) for c in range(m.n)])
                same("irunbnd", ib, exp)
            else:
                for m2m in (False, True):
                    up, dn, pct, sg = call("get_cascades", s.get_cascades, many2many=m2m)
                    tot = collections.defaultdict(float)
                    for u, d, p, q in zip(up, dn, pct, sg):
                        u, d = int(u) - 1, int(d) - 1
                        check(0 <= u < m.n and 0 <= d < m.n and (d == u or d in m.nb[u]), "cascade link {} -> {} is no link between neighbours", u, d)
                        check(int(q) == int(num[d]), "cascade link to cell {} names segment {}, it has {}", d, q, num[d])
                        check(m2m or d == fd[u], "cascade link {} -> {} does not follow the flow direction {}", u, d, fd[u])
                        tot[u] += float(p)
                    if m2m:
                        check(all(abs(v - 1.0) < 1e-9 for v in tot.values()), "many to many fractions do not add up to 1")
            vec = call("create_stream_vectors", s.create_stream_vectors, arr, group_segments=group)
            check(all(len(v) > 1 for v in vec.values()), "a stream vector has a single vertex")
        info.nontrivial = pits > 0 and max(len(u) for u in ups.values()) >= 3
        info.label(m.kind, m.spec["mesh"], case["cond"], "loops" if loop else "no_loops", "long_loops" if len(loop) > 2 * len(set(loop.values())) else "pairs",
                   "mask_loop" if any(mask[c] for c in loop) else "mask_tree", "nan" if nan.any() else "no_nan")


def _cells_numbered(who, num, mask, g, fd, loop):
    cells = [int(c) for c in np.where(mask)[0]]
    check(sorted(num[mask].tolist()) == list(range(1, len(cells) + 1)) and not num[~mask].any(), "{}: {} stream cells are numbered {}", who, len(cells), sorted(num[mask].tolist())[:20])
    check(sorted(int(k) for k in g) == list(range(1, len(cells) + 1)), "{}: graph {}", who, sorted(g)[:10])
    for c in cells:
        d = int(fd[c])
        exp = int(num[d]) if mask[d] else 0
        got = int(g[num[c]])
        if d == c:
            check(got in (0, exp), "{}: terminal reach {} goes to {}", who, num[c], got)
        else:
            check(got == exp, "{}: reach {} (cell {}) goes to {}, its flow direction is cell {} (reach {})", who, num[c], c, got, d, exp)
            if exp and c not in loop:
                check(num[c] < exp, "{}: reach {} is upstream of {}, numbers must increase downstream", who, num[c], exp)


def _reciprocal(conn, n):
    check([int(r[0]) for r in conn] == list(range(n)), "connectiondata has records {} for {} reaches", [r[0] for r in conn][:10], n)
    links = set()
    for r in conn:
        for v in r[1:]:
            links.add((int(r[0]), int(v)))


# ------------------------------------------------------------------------- C26
@st.composite
def _write_case(draw, size):
    who = draw(st.sampled_from(["sfr6", "sfr6", "sfr2005"]))
    kinds = ("structured",) if who == "sfr2005" else ("structured", "vertex", "unstructured")
    c = draw(net_spec(size=size, kinds=kinds, nan=0.0))
    if c["mask"]["f"] == "none":
        c["mask"]["f"] = "all"  # flopy has no package without reaches
    c["who"] = who
    c["group"] = draw(st.sampled_from([True, True, False]))
    return c


def _modflow6(net, ws):
    """simulation with the grid of the case and an sfr package made from dany's arrays"""
    m, g, n = net.mesh, net.grid, net.n
    top = np.where(np.isnan(net.flow.z), -9.0, net.flow.z).reshape(m.shape)
    sim = flopy.mf6.MFSimulation(sim_name="s", sim_ws=ws)
    flopy.mf6.ModflowTdis(sim)
    flopy.mf6.ModflowIms(sim)
    gwf = flopy.mf6.ModflowGwf(sim, modelname="m")
    if m.kind == "structured":
        flopy.mf6.ModflowGwfdis(gwf, nlay=1, nrow=m.shape[0], ncol=m.shape[1], delr=g.delr, delc=g.delc, top=top, botm=top - 9)
    elif m.kind == "vertex":
        flopy.mf6.ModflowGwfdisv(gwf, nlay=1, ncpl=n, nvert=len(m.verts), top=top, botm=[top - 9],
                                 vertices=[[i, x, y] for i, (x, y) in enumerate(m.verts)],
                                 cell2d=[[i, m.x[i], m.y[i], len(p)] + list(p) for i, p in enumerate(m.polys)])
    else:
        flopy.mf6.ModflowGwfdisu(gwf, nodes=n, nja=n, top=top, bot=top - 9, area=m.area, iac=[1] * n, ja=list(range(n)), ihc=[1] * n, cl12=[0.0] * n, hwva=[0.0] * n)
    return sim, gwf


def _block(path, name):
    """records of one block of a modflow 6 input file"""
    out, on = [], False
    with open(path) as f:
        for line in f:
            t = line.split()
            if not t or t[0].startswith("#"):
                continue
            if [x.lower() for x in t] == ["begin", name]:
                on = True
            elif [x.lower() for x in t] == ["end", name]:
                on = False
            elif on:
                out.append(t)
    return out


class Written:
    id = "C26"
    rule = (
        "random conditioned flow network and stream mask, sfr input built from dany's arrays, written by flopy and read back; "
        "non-trivial when three or more reaches are written and one has an upstream reach"
    )
    n_quick = 300
    n_thorough = 1200

    @staticmethod
    def strategy(tier):
        return _write_case(_size(tier))

    @staticmethod
    def extra(tier):
        for c in big_nets(tier, [{"who": "sfr6", "group": True}, {"who": "sfr2005", "group": True}, {"who": "sfr2005", "group": False}], huge=0):
            if c["who"] == "sfr6" or c["mesh"]["kind"] == "structured":
                yield c

    @staticmethod
    def run(case, info):
        net = Net(case, case["who"])
        ws = os.path.join(boot.SCRATCH, f"mf_{os.getpid()}")
        os.makedirs(ws, exist_ok=True)
        (Written._mf6 if case["who"] == "sfr6" else Written._nwt)(case, net, ws)
        net.unchanged()
        ups = oracles.upstream_sets(net.fd)
        info.nontrivial = int(net.mask.sum()) >= 3 and any(net.mask[u] for c in np.where(net.mask)[0] for u in ups[c])
        net.label(info, case)
        info.label(case["who"], "nan" if net.flow.nan.any() else "no_nan")

    @staticmethod
    def _mf6(case, net, ws):
        m, z, fd = net.mesh, net.flow.z, net.fd
        kw = feed(net, case["give"])
        pk = call("packagedata", net.s.packagedata, **kw)
        cd = call("connectiondata", net.s.connectiondata)
        num = np.ravel(net.s.stream_array).astype(int)
        sim, gwf = _modflow6(net, ws)

        def write():
            flopy.mf6.ModflowGwfsfr(gwf, nreaches=len(pk), packagedata=pk, connectiondata=cd)
            sim.write_simulation(silent=True)

        call("flopy sfr package", write, _budget=0)
        cells = {int(num[c]): int(c) for c in np.where(net.mask)[0]}
        check(sorted(cells) == list(range(1, int(net.mask.sum()) + 1)), "{} stream cells are numbered {}", int(net.mask.sum()), sorted(cells)[:20])
        rec = _block(os.path.join(ws, "m.sfr"), "packagedata")
        check(len(rec) == len(cells), "{} reaches written for {} stream cells", len(rec), len(cells))
        con = _block(os.path.join(ws, "m.sfr"), "connectiondata")
        check(len(con) == len(cells), "{} connection records written for {} stream cells", len(con), len(cells))
        ups = oracles.upstream_sets(fd)
        nid = 3 if m.kind == "structured" else 2 if m.kind == "vertex" else 1
        for ix, (r, q) in enumerate(zip(rec, con)):
            c = cells[ix + 1]
            d = int(fd[c])
            node = {3: lambda: [1, c // m.shape[-1] + 1, c % m.shape[-1] + 1], 2: lambda: [1, c + 1], 1: lambda: [c + 1]}[nid]()
            check([int(v) for v in r[: nid + 1]] == [ix + 1] + node, "written reach {} lies in cell {}, expected {}", r[0], r[1 : nid + 1], node)
            v = [float(x) for x in r[nid + 1 :]]
            if net.mask[d] and d != c:
                exp = 1.5 * m.dist(c, d)
                check(abs(v[0] - exp) <= 1e-5 * exp, "written reach {} has length {}, expected {}", ix + 1, v[0], exp)
            check(v[0] > 0, "written reach {} has length {}", ix + 1, v[0])
            s = 0.0 if d == c or 0 < z[c] - z[d] < 1e-6 else (z[c] - z[d]) / m.dist(c, d) / 1.5
            check(abs(v[2] - s) <= 1e-9 + 1e-5 * abs(s), "written reach {} has slope {}, expected {}", ix + 1, v[2], s)
            check(np.isnan(z[c]) or abs(v[3] - z[c]) <= 1e-5 * max(1.0, abs(z[c])), "written reach {} has bed elevation {}, expected {}", ix + 1, v[3], z[c])
            want = sorted(int(num[u]) for u in ups[c] if net.mask[u] and u != c)
            want_dn = [-int(num[d])] if net.mask[d] and d != c else []
            check(int(v[7]) == len(want) + len(want_dn), "written reach {} has ncon {}, it has {} connections", ix + 1, v[7], len(want) + len(want_dn))
            q = [int(x) for x in q]
            check(q[0] == ix + 1 and sorted(x for x in q[1:] if x > 0) == want and [x for x in q[1:] if x < 0] == want_dn,
                  "written connections of reach {} are {}, expected {} and {}", ix + 1, q, want, want_dn)

    @staticmethod
    def _nwt(case, net, ws):
        m, z, fd, group = net.mesh, net.flow.z, net.fd, case["group"]
        kw = feed(net, case["give"])
        rd = call("reach_data", net.s.reach_data, group_segments=group, **kw)
        sd = call("segment_data", net.s.segment_data, group_segments=group, **kw)
        if len(rd) < 2:
            return  # flopy needs two reaches
        top = np.where(np.isnan(z), -9.0, z).reshape(m.shape)
        nr, nc = m.shape
        box = {}

        def write():
            ml = flopy.modflow.Modflow("n", model_ws=ws)
            flopy.modflow.ModflowDis(ml, nlay=1, nrow=nr, ncol=nc, delr=case["mesh"]["delr"], delc=case["mesh"]["delc"], top=top, botm=top - 9)
            box["sfr"] = flopy.modflow.ModflowSfr2(ml, nstrm=len(rd), nss=len(sd), reach_data=rd.copy(), segment_data={0: sd.copy()},
                                                   reachinput=True, isfropt=1, transroute=False)
            ml.write_input()
            m2 = flopy.modflow.Modflow.load("n.nam", model_ws=ws, load_only=["dis", "sfr"], verbose=False)
            box["back"] = m2.sfr

        call("flopy sfr package", write, _budget=0)
        segs, dn = ref_segments(net, group)
        arr = np.ravel(net.s.stream_array).astype(int)
        start = {int(arr[s0]): s0 for s0 in segs}
        check(sorted(start) == list(range(1, len(segs) + 1)), "{} segments are numbered {}", len(segs), sorted(start)[:20])
        order = [(v, k + 1, c) for v in sorted(start) for k, c in enumerate(segs[start[v]])]
        rid = {c: i + 1 for i, (v, k, c) in enumerate(order)}
        for what, sf in (("package", box["sfr"]), ("file", box["back"])):
            check(len(sf.reach_data) == len(order), "{}: {} reaches for {} stream cells", what, len(sf.reach_data), len(order))
            for ix, (v, k, c) in enumerate(order):
                r = sf.reach_data[ix]
                got = [int(r[f]) for f in ("k", "i", "j", "iseg", "ireach")]
                check(got == [0, c // nc, c % nc, v, k], "{}: reach {} is {}, expected {}", what, ix, got, [0, c // nc, c % nc, v, k])
                d = int(fd[c])
                if net.mask[d] and d != c:
                    exp = 1.5 * m.dist(c, d)
                    check(abs(r["rchlen"] - exp) <= 1e-5 * exp, "{}: reach {} has length {}, expected {}", what, ix, r["rchlen"], exp)
                    s = (z[c] - z[d]) / exp
                    check(abs(r["slope"] - s) <= 1e-5 * abs(s) + 1e-9, "{}: reach {} has slope {}, expected {}", what, ix, r["slope"], s)
                check(abs(r["strtop"] - z[c]) <= 1e-5 * max(1.0, abs(z[c])), "{}: reach {} has top {}, expected {}", what, ix, r["strtop"], z[c])
            s0 = sf.segment_data[0]
            check([int(x) for x in s0["nseg"]] == sorted(start), "{}: segments {}", what, list(s0["nseg"])[:10])
            for v, o in zip(s0["nseg"], s0["outseg"]):
                t = dn[start[int(v)]]
                exp = 0 if t is None else int(arr[t])
                check(int(o) == exp, "{}: segment {} flows to {}, expected {}", what, v, o, exp)
        # the reach after each reach, as flopy works it out from segments and reaches
        if len(segs) < 2 or not any(v is not None for v in dn.values()):
            return  # flopy leaves it out
        for ix, (v, k, c) in enumerate(order):
            d = int(fd[c])
            if d != c:
                exp = rid[d] if net.mask[d] else 0
                got = int(box["sfr"].reach_data["outreach"][ix])
                check(got == exp, "flopy routes reach {} (cell {}) to {}, its flow direction is {}", ix + 1, c, got, exp)


PROPS = [Written, Pits]
