"""Mesh specs (plain JSON) -> flopy grids, plus an independent description of the
mesh (neighbours, areas, boundary cells) computed here from the polygons only."""
import boot  # noqa: F401
import math
from collections import defaultdict

import numpy as np
from flopy.discretization import StructuredGrid, UnstructuredGrid, VertexGrid


def _centroid(p):
    a = cx = cy = 0.0
    x0, y0 = p[0]
    for k in range(len(p)):
        xa, ya = p[k - 1][0] - x0, p[k - 1][1] - y0
        xb, yb = p[k][0] - x0, p[k][1] - y0
        cr = xa * yb - xb * ya
        a += cr
        cx += (xa + xb) * cr
        cy += (ya + yb) * cr
    return x0 + cx / (3 * a), y0 + cy / (3 * a)


def _shift(cen, p, w):
    """a point on the way from the centroid towards the first ring vertex"""
    return cen[0] + w * (p[0][0] - cen[0]), cen[1] + w * (p[0][1] - cen[1])


def poly_area(p):
    x0, y0 = p[0]
    s = 0.0
    for k in range(len(p)):
        s += (p[k - 1][0] - x0) * (p[k][1] - y0) - (p[k][0] - x0) * (
            p[k - 1][1] - y0
        )
    return abs(s) / 2.0


def _rect_lines(spec):
    xs = np.concatenate([[0.0], np.cumsum(np.array(spec["delr"], float))])
    tot = float(np.sum(spec["delc"]))
    ys = tot - np.concatenate([[0.0], np.cumsum(np.array(spec["delc"], float))])
    return xs, ys


def _build_polys(spec):
    """list of vertex coordinates, list of index polygons (clockwise, open)"""
    m = spec["mesh"]
    if m == "vor":
        return _voronoi(spec["seed"], spec["n"])
    if m == "hub":
        return _hub(spec["k"], spec["rings"])
    xs, ys = _rect_lines(spec)
    nr, nc = len(spec["delc"]), len(spec["delr"])
    verts, index = [], {}

    def vid(x, y, key=None):
        key = (x, y) if key is None else key
        if key not in index:
            index[key] = len(verts)
            verts.append((float(x), float(y)))
        return index[key]

    polys = []
    if m == "rect":
        for r in range(nr):
            for c in range(nc):
                polys.append(
                    [
                        vid(xs[c], ys[r]),
                        vid(xs[c + 1], ys[r]),
                        vid(xs[c + 1], ys[r + 1]),
                        vid(xs[c], ys[r + 1]),
                    ]
                )
    elif m == "jit":
        jit = spec["jit"]
        k = 0
        for r in range(nr + 1):
            for c in range(nc + 1):
                hx = min(xs[min(c + 1, nc)] - xs[min(c, nc - 1)], xs[max(c, 1)] - xs[max(c - 1, 0)])
                hy = min(
                    ys[min(r, nr - 1)] - ys[min(r + 1, nr)],
                    ys[max(r - 1, 0)] - ys[max(r, 1)],
                )
                jx, jy = jit[k % len(jit)], jit[(k + 1) % len(jit)]
                k += 2
                vid(xs[c] + hx * jx / 100.0, ys[r] + hy * jy / 100.0, key=(r, c))
        for r in range(nr):
            for c in range(nc):
                polys.append(
                    [
                        index[(r, c)],
                        index[(r, c + 1)],
                        index[(r + 1, c + 1)],
                        index[(r + 1, c)],
                    ]
                )
    elif m == "tri":
        for r in range(nr):
            for c in range(nc):
                a = vid(xs[c], ys[r])
                b = vid(xs[c + 1], ys[r])
                d = vid(xs[c + 1], ys[r + 1])
                e = vid(xs[c], ys[r + 1])
                f = spec["flags"][r * nc + c]
                if f == 1:
                    polys += [[a, b, d], [a, d, e]]
                elif f == 2:
                    polys += [[a, b, e], [b, d, e]]
                else:
                    polys.append([a, b, d, e])
    elif m == "quad":
        fl = spec["flags"]

        def ref(r, c):
            return 0 <= r < nr and 0 <= c < nc and fl[r * nc + c] == 1

        for r in range(nr):
            for c in range(nc):
                x0, x1, y0, y1 = xs[c], xs[c + 1], ys[r], ys[r + 1]
                xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
                if ref(r, c):
                    for ya, yb in ((y0, ym), (ym, y1)):
                        for xa, xb in ((x0, xm), (xm, x1)):
                            polys.append(
                                [vid(xa, ya), vid(xb, ya), vid(xb, yb), vid(xa, yb)]
                            )
                else:
                    p = [vid(x0, y0)]
                    if ref(r - 1, c):
                        p.append(vid(xm, y0))
                    p.append(vid(x1, y0))
                    if ref(r, c + 1):
                        p.append(vid(x1, ym))
                    p.append(vid(x1, y1))
                    if ref(r + 1, c):
                        p.append(vid(xm, y1))
                    p.append(vid(x0, y1))
                    if ref(r, c - 1):
                        p.append(vid(x0, ym))
                    polys.append(p)
    elif m == "ell":
        # blocks of two by two cells, some of them joined to an L-shaped cell and its corner
        fl = spec["flags"]
        for r in range(0, nr, 2):
            for c in range(0, nc, 2):
                f = fl[(r // 2) * ((nc + 1) // 2) + c // 2] if r + 1 < nr and c + 1 < nc else 0
                quads = [(i, j) for i in (r, r + 1) for j in (c, c + 1) if i < nr and j < nc]
                ring = [(r, c), (r, c + 1), (r, c + 2), (r + 1, c + 2), (r + 2, c + 2), (r + 2, c + 1), (r + 2, c), (r + 1, c)]
                if f:
                    # the corner that stays a cell of its own
                    corner = quads.pop(f - 1)
                    k = {1: 0, 2: 2, 3: 6, 4: 4}[f]
                    ring[k] = (r + 1, c + 1)
                    polys.append([vid(xs[j], ys[i]) for i, j in ring])
                    quads = [corner]
                for i, j in quads:
                    polys.append([vid(xs[b], ys[a]) for a, b in ((i, j), (i, j + 1), (i + 1, j + 1), (i + 1, j))])
    else:
        raise ValueError(m)
    if spec.get("xv"):
        _extra_vertices(verts, polys, spec["xv"])
    return verts, polys


def _extra_vertices(verts, polys, flags):
    """additional vertices on the (straight) edges, shared by the cells on both sides"""
    new = {}
    for i, p in enumerate(polys):
        q = []
        for k in range(len(p)):
            a, b = p[k - 1], p[k]
            key = (min(a, b), max(a, b))
            if key not in new:
                w = (0.0, 0.5, 0.25, 0.0)[flags[len(new) % len(flags)]]
                new[key] = None
                if w:
                    u, v = verts[key[0]], verts[key[1]]
                    new[key] = len(verts)
                    verts.append((u[0] + w * (v[0] - u[0]), u[1] + w * (v[1] - u[1])))
            if new[key] is not None:
                q.append(new[key])
            q.append(b)
        polys[i] = q


def _hub(k, rings):
    """one cell with k sides (a lake) inside of rings of quadrilaterals"""
    verts, polys = [], []
    for r in range(rings + 1):
        for i in range(k):
            t = -2 * math.pi * i / k
            rad = 50.0 + 20.0 * r
            verts.append((100.0 + rad * math.cos(t), 100.0 + rad * math.sin(t)))
    polys.append(list(range(k)))
    for r in range(rings):
        for i in range(k):
            j = (i + 1) % k
            polys.append([r * k + i, (r + 1) * k + i, (r + 1) * k + j, r * k + j])
    return verts, polys


def _voronoi(seed, n):
    from scipy.spatial import Voronoi

    rng = np.random.default_rng(seed)
    pts = rng.random((n, 2)) * 80 + 10
    # mirrored points give finite cells clipped to the square [0, 100]^2
    allp = [pts]
    for ax in (0, 1):
        for b in (0.0, 100.0):
            q = pts.copy()
            q[:, ax] = 2 * b - q[:, ax]
            allp.append(q)
    v = Voronoi(np.vstack(allp))
    verts, index, polys = [], {}, []
    for i in range(n):
        reg = v.regions[v.point_region[i]]
        c = pts[i]
        ring = sorted(
            reg, key=lambda k: -math.atan2(v.vertices[k][1] - c[1], v.vertices[k][0] - c[0])
        )
        p = []
        for k in ring:
            if k not in index:
                index[k] = len(verts)
                verts.append((float(v.vertices[k][0]), float(v.vertices[k][1])))
            p.append(index[k])
        polys.append(p)
    return verts, polys


class Mesh:
    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        verts, polys = _build_polys(spec)
        rot = math.radians(spec.get("rot", 0.0))
        ox, oy = spec.get("off", (0.0, 0.0))
        # the frame is applied by the grid (offset/rotation arguments) or to the vertices
        self.local = verts
        if rot or ox or oy:
            c, s = math.cos(rot), math.sin(rot)
            verts = [(ox + c * x - s * y, oy + s * x + c * y) for x, y in verts]
        perm = spec.get("perm")
        if perm is not None and self.kind != "structured":
            polys = [polys[i] for i in perm]
        if spec.get("ccw") and self.kind != "structured":
            # cells with the vertices in the other order
            polys = [p[:1] + p[:0:-1] if spec["ccw"][i % len(spec["ccw"])] else p for i, p in enumerate(polys)]
        self.verts = verts
        self.polys = polys
        self.n = len(polys)
        self.rings = [[verts[k] for k in p] for p in polys]
        cen = [_centroid(p) for p in self.rings]
        self._cx = np.array([c[0] for c in cen])
        self._cy = np.array([c[1] for c in cen])
        self.area = np.array([poly_area(p) for p in self.rings])
        by_v = defaultdict(list)
        by_e = defaultdict(list)
        for i, p in enumerate(polys):
            for k in range(len(p)):
                by_v[p[k]].append(i)
                by_e[frozenset((p[k - 1], p[k]))].append(i)
        nbs = [set() for _ in polys]
        for cells in by_v.values():
            for a in cells:
                nbs[a].update(cells)
        self.nb = [sorted(s - {i}) for i, s in enumerate(nbs)]
        self.edge = sorted({c[0] for c in by_e.values() if len(c) == 1})
        if self.kind == "structured":
            self.shape = (len(spec["delc"]), len(spec["delr"]))
        else:
            self.shape = (self.n,)
        g = self.grid()
        self.x = np.array(g.xcellcenters, float).ravel().copy()
        self.y = np.array(g.ycellcenters, float).ravel().copy()

    def dist(self, i, j):
        return math.hypot(self.x[i] - self.x[j], self.y[i] - self.y[j])

    def grid(self):
        """a fresh flopy grid"""
        s = self.spec
        nlay = s.get("nlay", 1)
        n = self.n
        ox, oy = s.get("off", (0.0, 0.0))
        idom = np.resize(np.array(s.get("idom") or [1], int), n)
        if self.kind == "structured":
            nr, nc = self.shape
            return StructuredGrid(
                delc=np.array(s["delc"], float),
                delr=np.array(s["delr"], float),
                top=np.ones((nr, nc)),
                botm=np.zeros((nlay, nr, nc)),
                idomain=np.tile(idom.reshape(nr, nc), (nlay, 1, 1)),
                nlay=nlay,
                xoff=ox,
                yoff=oy,
                angrot=s.get("rot", 0.0),
            )
        src, cx, cy, frame = self.verts, self._cx, self._cy, {}
        if s.get("byframe"):
            src = self.local
        if s.get("byframe") or s.get("cshift"):
            rings = [[src[k] for k in p] for p in self.polys]
            cen = [_shift(_centroid(r), r, s.get("cshift", 0.0)) for r in rings]
            cx, cy = np.array([c[0] for c in cen]), np.array([c[1] for c in cen])
        if s.get("byframe"):
            frame = {"xoff": ox, "yoff": oy, "angrot": s.get("rot", 0.0)}
        verts = [[i, v[0], v[1]] for i, v in enumerate(src)]
        closed = s.get("closed", False)
        iv = [list(p) + ([p[0]] if closed else []) for p in self.polys]
        if self.kind == "vertex":
            return VertexGrid(
                vertices=verts,
                cell2d=[[i, cx[i], cy[i], len(iv[i])] + iv[i] for i in range(n)],
                top=np.ones(n),
                botm=np.zeros((nlay, n)),
                idomain=np.tile(idom, (nlay, 1)),
                nlay=nlay,
                ncpl=n,
                **frame,
            )
        return UnstructuredGrid(
            vertices=verts,
            iverts=iv,
            xcenters=cx.copy(),
            ycenters=cy.copy(),
            top=np.ones(n),
            botm=np.zeros(n),
            ncpl=np.array([n]),
            idomain=idom,
            **frame,
        )

    def pt(self, cell, fx=0, fy=0):
        """a point strictly inside a (convex) cell; fx picks a ring vertex, fy in
        0..60 the percentage of the way from the centre to it"""
        ring = self.rings[cell]
        vx, vy = ring[fx % len(ring)]
        cx, cy = self._cx[cell], self._cy[cell]
        w = fy / 100.0
        return [float(cx + w * (vx - cx)), float(cy + w * (vy - cy))]
