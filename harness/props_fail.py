"""C30: calls that are rejected leave everything as it was."""
import boot  # noqa: F401
import types

import dany
import numpy as np
from hypothesis import strategies as st

import gen
from core import Violation, call, check, same
from props_flow import fdir_of, make_fo, valid_fdir
from props_meta import _equal, _snap
from props_streams import CLS, _size, feed, mask_array, mask_of, mask_spec

# calls before flow_directions() was run
EARLY = ["acc", "ws", "sub", "nidp", "slope", "aspect", "vectors", "hru_len", "fdir", "facc"]
# calls that can be made at any later stage
FLOW = ["ws_x", "ws_xyz", "sub_x", "sub_xyz", "ws_out", "sub_out", "sub_late", "term_late", "term_rc", "term_pairs", "min_ties", "fill_mask", "nan_method"]
# calls of a stream object without a stream array
NONE = ["conn", "array", "vectors", "own0", "own1", "own2", "own3"]
STRM = ["set_size", "delin_size", "delin_basin", "ctrl_xyz", "ctrl_out", "ctrl_late", "kw"]
# streams of another grid
SIZE = ["conn_size", "vectors_size", "own0_size", "own1_size", "own2_size"]
OWN = {"sfr6": ["connectiondata", "packagedata", "packagedata", "connectiondata"],
       "sfr2005": ["reach_data", "segment_data", "irunbnd", "get_pygsflow_builder_object"],
       "prms": ["get_cascades", "get_cascades", "get_pygsflow_builder_object", "get_cascades"]}
# not every call of the list must be refused: what is refused must have no effect
MUST = set(EARLY + NONE + ["ws_x", "ws_xyz", "sub_x", "sub_xyz", "ws_out", "sub_out", "sub_late", "term_pairs", "min_ties", "nan_method",
                           "set_size", "delin_size", "ctrl_xyz", "ctrl_out", "ctrl_late", "kw"])


@st.composite
def _case(draw, size):
    kind = draw(st.sampled_from(["sfr6", "sfr2005", "prms"]))
    c = draw(gen.flow_spec(size=size, kinds=("structured",) if kind == "sfr2005" else ("structured", "vertex", "unstructured")))
    n = c["mesh"]["ncell"]
    c["skind"] = kind
    c["mask"] = draw(mask_spec(n))
    c["cells"] = draw(st.booleans())
    c["group"] = draw(st.booleans())
    c["give"] = draw(st.sampled_from(["set", "arg"]))
    c["map"] = draw(st.booleans())
    c["m2m"] = draw(st.booleans())
    c["pts"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
    c["by"] = draw(st.sampled_from(["list", "tuple", "array"]))
    k = 3
    c["bad"] = [
        draw(st.lists(st.sampled_from(EARLY + FLOW), max_size=k)),
        draw(st.lists(st.sampled_from(FLOW), max_size=k)),
        draw(st.lists(st.sampled_from(FLOW + STRM + NONE + NONE), max_size=k)),
        draw(st.lists(st.sampled_from(FLOW + STRM + STRM + SIZE), max_size=k)),
        draw(st.lists(st.sampled_from(FLOW + STRM + STRM + SIZE), max_size=k)),
    ]
    return c


class Rejected:
    id = "C30"
    rule = (
        "random conditioned flow network and workflow up to the input tables, with refused calls between its steps, compared "
        "with the same workflow without them; non-trivial when two or more calls were refused after flow directions existed"
    )
    n_quick = 1200

    @staticmethod
    def strategy(tier):
        return _case(_size(tier))

    @staticmethod
    def run(case, info):
        flow = gen.Flow(case)
        m = flow.mesh
        n = m.n
        kind, by = case["skind"], {"list": list, "tuple": tuple, "array": np.array}[case["by"]]
        xy = np.array(m.verts)
        out = [float(xy[:, 0].max() + 7.0), float(xy[:, 1].min() - 3.0)]
        good = m.pt(case["pts"][0])
        refused = [0]

        def bad(S, name, stage):
            """one refused call; True if it raised"""
            fo, g = S.fo, S.grid
            s = getattr(S, "s", None)
            own = OWN[kind]
            big = np.ones(n + 1, int)
            ret = {
                "acc": lambda: fo.flow_accumulation(),
                "ws": lambda: fo.get_watershed_boundary(good),
                "sub": lambda: fo.get_subbasins([good]),
                "nidp": lambda: fo.get_nidp(),
                "slope": lambda: fo.slope,
                "aspect": lambda: fo.aspect,
                "vectors": lambda: fo.vectors if stage == 0 else s.create_stream_vectors(group_segments=case["group"]),
                "hru_len": lambda: fo.hru_len,
                "fdir": lambda: fo.flow_direction_array,
                "facc": lambda: fo.flow_accumulation_array,
                "ws_x": lambda: fo.get_watershed_boundary(by(good[:1])),
                "ws_xyz": lambda: fo.get_watershed_boundary(by(good + [0.0])),
                "sub_x": lambda: fo.get_subbasins([by(good[:1])]),
                "sub_xyz": lambda: fo.get_subbasins([by(good + [0.0])]),
                "ws_out": lambda: fo.get_watershed_boundary(by(out)),
                "sub_out": lambda: fo.get_subbasins([by(out)]),
                "sub_late": lambda: fo.get_subbasins([by(m.pt(c)) for c in case["pts"]] + [by(out)]),
                "term_late": lambda: fo.flow_directions(burn_threshold=1.0, terminal_cells=[case["pts"][0], n + 3]),
                "term_rc": lambda: fo.flow_directions(burn_threshold=1.0, terminal_cells=[(0, 0), (m.shape[0] + 2, 0)]),
                "term_pairs": lambda: fo.flow_directions(burn_threshold=1.0, terminal_cells=[(0, 0), (0, 0)]),
                "min_ties": lambda: dany.FlowDirections(g, np.zeros(m.shape)),
                "fill_mask": lambda: dany.fill_sinks(g, flow.dem(), stream_mask=big),
                "nan_method": lambda: dany.fill_nan_values(g, np.where(np.arange(n) == 0, np.nan, 1.0).reshape(m.shape), method="mode"),
                "conn": lambda: s.get_stream_connectivity(),
                "array": lambda: s.stream_array,
                "conn_size": lambda: s.get_stream_connectivity(big),
                "vectors_size": lambda: s.create_stream_vectors(big, group_segments=case["group"]),
                "set_size": lambda: s.set_stream_array(big),
                "delin_size": lambda: s.delineate_streams(big),
                "delin_basin": lambda: s.delineate_streams(2, basin_boundary=big * 0),
                "ctrl_xyz": lambda: s.threshold_from_control_points([by(good + [0.0])]),
                "ctrl_out": lambda: s.threshold_from_control_points([by(out)]),
                "ctrl_late": lambda: s.threshold_from_control_points([by(m.pt(c)) for c in case["pts"]] + [by(out)]),
                "kw": lambda: s.get_pygsflow_builder_object(nosuchkeyword=1),
            }
            for i in range(4):
                ret[f"own{i}"] = lambda i=i: getattr(s, own[i])()
            for i in range(3):
                ret[f"own{i}_size"] = lambda i=i: getattr(s, own[i])(stream_array=big)
            if name == "kw" and kind == "sfr6" or name == "term_pairs" and m.kind == "structured":
                return  # no such call, or a valid one
            if name == "own0_size" and kind == "sfr6":
                return
            if name in ("min_ties",) and n == 1:
                return
            fn = ret[name]
            what = f"{name} ({own[int(name[3])]})" if name.startswith("own") else name
            try:
                call(what, fn, _allow=Exception)
            except Violation:
                raise
            except Exception:  # noqa: BLE001
                info.label("refused_" + name)
                refused[0] += stage > 0
                return
            check(name not in MUST, "{} was not refused (stage {})", what, stage)
            raise _Accepted

        def look(S, stage):
            """what can be seen without changing anything"""
            r = {"dem": S.fo.dem, "area": S.fo.area}
            if stage >= 1:
                r["fdir"] = call("flow_direction_array", lambda: S.fo.flow_direction_array)
            if stage >= 2:
                r["facc"] = call("flow_accumulation_array", lambda: S.fo.flow_accumulation_array)
                r["top"] = S.grid.top
            if stage >= 3:
                r["streams"] = np.nan_to_num(call("stream_array", lambda: S.s.stream_array).astype(float))
            return _snap(r)

        def trouble(S, stage):
            before = look(S, stage)
            for name in case["bad"][stage]:
                bad(S, name, stage)
                _equal(f"refused call {name}: state", look(S, stage), before)

        def work(with_bad):
            S = types.SimpleNamespace()
            S.grid = m.grid()
            S.fo = make_fo(flow, S.grid, fd=False)
            after = trouble if with_bad else (lambda *a: None)
            after(S, 0)
            call("flow_directions()", S.fo.flow_directions, **{k: (list(v) if isinstance(v, list) else v) for k, v in flow.kw.items()})
            after(S, 1)
            call("flow_accumulation()", S.fo.flow_accumulation, as_cells=case["cells"])
            S.s = call(f"{kind}()", CLS[kind], S.grid, S.fo)
            after(S, 2)
            S.arr = arr
            res = {"given": bool(feed(S, case["give"]))}
            kw = {} if kind == "sfr6" else {"group_segments": case["group"]}
            if res["given"]:
                res["conn"] = call("get_stream_connectivity", S.s.get_stream_connectivity, arr, **kw)
            after(S, 3)
            if case["map"]:
                res["conn"] = call("get_stream_connectivity", S.s.get_stream_connectivity, **kw)
            after(S, 4)
            # everything that can be asked for
            for i, name in enumerate(OWN[kind]):
                k = dict(kw)
                if name == "get_cascades":
                    k = {"many2many": case["m2m"]}
                res[f"{i}{name}"] = _snap(call(name, getattr(S.s, name), **k))
            res["vec"] = call("create_stream_vectors", S.s.create_stream_vectors, group_segments=case["group"])
            res["ctrl"] = call("threshold_from_control_points", S.s.threshold_from_control_points, [m.pt(c) for c in case["pts"]], threshold=1e9)
            res["ws"] = call("get_watershed_boundary", S.fo.get_watershed_boundary, good)
            res["sub"] = call("get_subbasins", S.fo.get_subbasins, [m.pt(c) for c in case["pts"]])
            for p in ("slope", "aspect", "vectors", "hru_len"):
                res[p] = call(p, lambda: getattr(S.fo, p))
            res["nidp"] = call("get_nidp", S.fo.get_nidp)
            res.update(look(S, 3))
            return res

        make = make_fo(flow)
        fd = fdir_of(make)
        valid_fdir(flow, fd)
        mask = mask_of(case["mask"], fd)
        arr = mask_array(case["mask"], mask, m.shape)
        keep = arr.copy()
        exp = work(False)
        try:
            got = work(True)
        except _Accepted:
            info.label("accepted")
            return
        _equal("results after refused calls", got, exp)
        same("a stream array passed by the caller was changed", arr, keep)
        info.nontrivial = refused[0] >= 2
        info.label(m.kind, kind)


class _Accepted(Exception):
    """a call that need not be refused was not"""


PROPS = [Rejected]
