"""Reference models, written from the documented behaviour and independent of dany."""
import heapq
import math

import numpy as np


def minimax(z, nb, seeds):
    """lowest surface >= z on which every cell has a non-ascending path to a seed
    (NaN cells are open edges)"""
    d = np.where(np.isnan(z), -np.inf, z)
    w = np.full(d.size, np.inf)
    h = []
    for s in list(seeds) + list(np.where(np.isnan(z))[0]):
        s = int(s)
        w[s] = d[s]
        heapq.heappush(h, (w[s], s))
    while h:
        e, c = heapq.heappop(h)
        if e > w[c]:
            continue
        for n in nb[c]:
            v = max(d[n], e)
            if v < w[n]:
                w[n] = v
                heapq.heappush(h, (v, n))
    return np.where(np.isnan(z), np.nan, w)


def epsfill(z, nb, seeds, eps):
    """least surface >= z with w[c] >= min(w[nb]) + eps away from the seeds"""
    w = np.full(z.size, np.inf)
    h = []
    for s in seeds:
        w[s] = z[s]
        heapq.heappush(h, (w[s], s))
    while h:
        e, c = heapq.heappop(h)
        if e > w[c]:
            continue
        for n in nb[c]:
            v = max(z[n], e + eps)
            if v < w[n]:
                w[n] = v
                heapq.heappush(h, (v, n))
    return w


def steps_from_spill(z, ref, nb, seeds, limit=400_000):
    """most cells that lie on a shortest way from a cell where its depression or flat (the
    connected cells with one spill elevation) is entered, for every cell; None if too costly"""
    n = z.size
    k = np.zeros(n, int)
    seen = np.isnan(z)
    edge = np.zeros(n, bool)
    edge[list(seeds)] = True
    work = 0
    for s in range(n):
        if seen[s]:
            continue
        comp, st = [], [s]
        seen[s] = True
        while st:
            c = st.pop()
            comp.append(c)
            for j in nb[c]:
                if not seen[j] and ref[j] == ref[s]:
                    seen[j] = True
                    st.append(j)
        if len(comp) == 1:
            continue
        inside = set(comp)
        entry = [c for c in comp if z[c] == ref[c] and (edge[c] or any(np.isnan(z[j]) or ref[j] < ref[c] for j in nb[c]))]
        block = set(entry)
        work += len(entry) * len(comp)
        if work > limit:
            return None
        for e in entry:
            dist = {e: 0}
            front = [e]
            while front:
                nxt = []
                for c in front:
                    for j in nb[c]:
                        if j in inside and j not in block and j not in dist:
                            dist[j] = dist[c] + 1
                            nxt.append(j)
                front = nxt
            for c, d in dist.items():
                k[c] = max(k[c], d)
    return k


def descends(w, nb, seeds, strict=True):
    """cells from which a (strictly) descending path to a seed exists"""
    ok = np.zeros(w.size, bool)
    st = list(seeds)
    ok[st] = True
    while st:
        c = st.pop()
        for n in nb[c]:
            if not ok[n] and (w[n] > w[c] if strict else w[n] >= w[c]):
                ok[n] = True
                st.append(n)
    return ok


def upstream_sets(fdir):
    up = [[] for _ in fdir]
    for i, d in enumerate(fdir):
        if d != i:
            up[int(d)].append(i)
    return up


def topo_order(fdir):
    """upstream-to-downstream order of an acyclic (self loops allowed) fdir or None"""
    n = len(fdir)
    deg = [0] * n
    for i in range(n):
        if fdir[i] != i:
            deg[int(fdir[i])] += 1
    st = [i for i in range(n) if deg[i] == 0]
    out = []
    while st:
        i = st.pop()
        out.append(i)
        d = int(fdir[i])
        if d != i:
            deg[d] -= 1
            if deg[d] == 0:
                st.append(d)
    return out if len(out) == n else None


def accumulate(fdir, w):
    order = topo_order(fdir)
    a = np.array(w, float).copy()
    for i in order:
        d = int(fdir[i])
        if d != i:
            a[d] += a[i]
    return a


def upstream_of(fdir, c):
    up = upstream_sets(fdir)
    seen = {c}
    st = [c]
    while st:
        i = st.pop()
        for j in up[i]:
            if j not in seen:
                seen.add(j)
                st.append(j)
    return seen


def walk(fdir, c):
    """c and its downstream cells up to the terminal cell"""
    out = [c]
    while int(fdir[c]) != c:
        c = int(fdir[c])
        out.append(c)
        if len(out) > len(fdir) + 1:
            return out
    return out


def slope_to(z, x, y, i, j):
    return (z[j] - z[i]) / math.hypot(x[i] - x[j], y[i] - y[j])
