"""C20: the configuration generators (utils/python), run as they are, with h5py replaced by files in memory.

Every sequence of construction steps within the bounds is executed on the real code; each file written is compared
with the geometry that it describes."""
import itertools, os, sys, contextlib, io, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
UTIL = "/repo/utils/python"
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, "..", "shim", "py"), UTIL]
import numpy as np
import h5py
from vc import Explorer, Failure
X = Explorer(sys.argv)
check = X.check

import config
from config import Empty, PipeHub, ObjectInSpace
from box_channel_config import BoxChannelConfig
from channel_config import ChannelConfig
import sample_comp, linelast_comp, linelast_cwtrain, linelast_comp_base

DIR2 = {1: (0, -1), 2: (1, 0), 3: (0, 1), 4: (-1, 0)}
FACE2 = {v: k for k, v in DIR2.items()}


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def take(name):
    """The file of that name, which must have been written since the last call of clear()."""
    p = os.path.abspath(name)
    check(p in h5py.FILES, "no file %s was written, there are %s" % (name, sorted(os.path.basename(x) for x in h5py.FILES)))
    return h5py.FILES[p]


def clear():
    h5py.FILES.clear()
    del h5py.ORDER[:]


def ints(a, what):
    a = np.asarray(a)
    check(a.size == 0 or (a == np.round(a)).all(), "%s are not integers: %s" % (what, a.tolist()))
    return np.asarray(a, dtype=float).round().astype(int)


class Cfg:
    """What a reader of the file gets (as ComponentTopologyHandler reads it)."""

    def __init__(self, f, ports=True):
        c = f["components"]
        n = int(c.attrs["number_of_components"])
        self.comps = [c.attrs["%d" % k] for k in range(n)]
        check(all(isinstance(x, str) for x in self.comps), "component names %s" % self.comps)
        check(len(set(self.comps)) == n, "component names are not distinct: %s" % self.comps)
        self.mesh = ints(c["meshes"][()], "mesh types")
        check(self.mesh.ndim == 1 and ((self.mesh >= 0) & (self.mesh < n)).all(), "mesh types %s for %d components" % (self.mesh, n))
        self.conf = np.asarray(c["configuration"][()], dtype=float)
        check(self.conf.shape == (len(self.mesh), 6), "configuration has shape %s for %d meshes" % (self.conf.shape, len(self.mesh)))
        check(not self.conf[:, 3:].any(), "rotated meshes")
        p = f["ports"]
        np_ = int(p.attrs["number_of_references"])
        self.pname = [p.attrs["%d" % k] for k in range(np_)]
        check(len(set(self.pname)) == np_, "port names are not distinct: %s" % self.pname)
        self.ports = []
        if ports:
            for nm in self.pname:
                check(nm in p, "port %s has no data" % nm)
                q = p[nm]
                c2 = np.asarray(q["comp2_configuration"][()], dtype=float)
                check(c2.shape == (6,), "comp2_configuration has shape %s" % (c2.shape,))
                check(q.attrs["comp1"] in self.comps and q.attrs["comp2"] in self.comps, "port %s connects %s and %s, components are %s" %
                      (nm, q.attrs["comp1"], q.attrs["comp2"], self.comps))
                self.ports.append((q.attrs["comp1"], q.attrs["comp2"], int(q.attrs["attr1"]), int(q.attrs["attr2"]), c2))
            keys = [x[:4] for x in self.ports]
            check(len(set(keys)) == len(keys), "two ports between the same faces: %s" % keys)
        a = np.asarray(p["interface"][()])
        if a.size == 0:
            a = a.reshape(0, 5)
        check(a.ndim == 2 and a.shape[1] == 5, "interface data has shape %s" % (a.shape,))
        self.iface = [tuple(r) for r in ints(a, "interface data").tolist()]
        b = np.asarray(f["boundary"][()])
        if b.size == 0:
            b = b.reshape(0, 3)
        check(b.ndim == 2 and b.shape[1] == 3, "boundary data has shape %s" % (b.shape,))
        self.bdr = [tuple(r) for r in ints(b, "boundary data").tolist()]

    def name(self, m):
        return self.comps[self.mesh[m]]

    def closed(self, faces):
        """Every face of every mesh appears once, as a boundary or in an interface."""
        seen = {}
        nm = len(self.mesh)
        for r in self.bdr:
            check(0 <= r[1] < nm, "boundary row %s: no such mesh" % (r,))
            check(r[2] in faces(self.name(r[1])), "boundary row %s: %s has no face %d" % (r, self.name(r[1]), r[2]))
            check((r[1], r[2]) not in seen, "face %d of mesh %d appears in %s and %s" % (r[2], r[1], seen.get((r[1], r[2])), r))
            seen[(r[1], r[2])] = r
        for r in self.iface:
            check(0 <= r[0] < nm and 0 <= r[1] < nm, "interface row %s: no such mesh" % (r,))
            for m, f in ((r[0], r[2]), (r[1], r[3])):
                check(f in faces(self.name(m)), "interface row %s: %s has no face %d" % (r, self.name(m), f))
                check((m, f) not in seen, "face %d of mesh %d appears in %s and %s" % (f, m, seen.get((m, f)), r))
                seen[(m, f)] = r
        for m in range(nm):
            for f in faces(self.name(m)):
                check((m, f) in seen, "face %d of mesh %d (%s) is neither a boundary nor in an interface" % (f, m, self.name(m)))

    def pairs(self, want, disp=None):
        """The interfaces are exactly the pairs (m1,f1,m2,f2) of want (in either direction), each once, and refer to a
        port between these components and faces, which places the second component as the meshes are placed."""
        got = []
        for r in self.iface:
            k = min(((r[0], r[2]), (r[1], r[3])), ((r[1], r[3]), (r[0], r[2])))
            got.append(k)
        w = sorted(min((a, b), (b, a)) for a, b in want)
        check(sorted(got) == w, "interfaces (mesh, face) - (mesh, face) %s, abutting are %s" % (sorted(got), w))
        for r in self.iface:
            check(0 <= r[4] < len(self.pname), "interface row %s: no such port" % (r,))
            if self.ports:
                p = self.ports[r[4]]
                check((p[0], p[1], p[2], p[3]) == (self.name(r[0]), self.name(r[1]), r[2], r[3]),
                      "interface row %s between %s and %s refers to the port %s" % (r, self.name(r[0]), self.name(r[1]), p[:4]))
                d = disp(r) if disp else self.conf[r[1]] - self.conf[r[0]]
                check(np.allclose(p[4][:len(d)], d, atol=1e-12) and not p[4][len(d):].any(),
                      "interface row %s: the port %s places the second component at %s, the meshes are at a distance %s" % (r, p[:4], p[4], d))

    def key(self):
        return (tuple(self.comps), tuple(self.mesh.tolist()), tuple(map(tuple, self.conf.tolist())), tuple(self.iface), tuple(self.bdr),
                tuple((p[0], p[1], p[2], p[3], tuple(p[4].tolist())) for p in self.ports))


def boxfaces(name):
    return (1, 2, 3, 4) if name == "empty" else (1, 2, 3, 4, 5)


# ------------------------------------------------------------------------------------------------ boxes of components
def makecomps(kinds):
    return [Empty() if k == "empty" else PipeHub() if k == "pipe-hub" else ObjectInSpace(k) for k in kinds]


def checkbox(f, nx, ny, per, names, allcomps, unused_ok=False):
    """names: location -> component name."""
    c = Cfg(f)
    locs = [tuple(x) for x in ints(c.conf[:, :2], "locations").tolist()]
    check(not c.conf[:, 2:].any(), "configuration %s" % c.conf.tolist())
    check(sorted(locs) == sorted(names), "meshes at %s" % locs)
    for m, l in enumerate(locs):
        check(c.name(m) == names[l], "mesh %d at %s is %s, asked for %s" % (m, l, c.name(m), names[l]))
    used = [k for k in allcomps if k in names.values()]
    if not unused_ok:
        check(c.comps == used, "components %s, used are %s" % (c.comps, used))
    at = {l: m for m, l in enumerate(locs)}
    want, where = [], set()
    for (i, j), m in at.items():
        for face, d in ((2, (1, 0)), (3, (0, 1))):
            l2 = (i + d[0], j + d[1])
            if per[0]:
                l2 = (l2[0] % nx, l2[1])
            if per[1]:
                l2 = (l2[0], l2[1] % ny)
            if l2 in at:
                opp = FACE2[(-d[0], -d[1])]
                want.append(((m, face), (at[l2], opp)))
                where |= {(m, face), (at[l2], opp)}
    c.pairs(want, lambda r: np.array(DIR2[r[2]], dtype=float))
    c.closed(boxfaces)
    for r in c.bdr:
        check(r[0] == r[2], "boundary row %s: the face has the attribute of its side" % (r,))
    if not unused_ok:
        usedp = {r[4] for r in c.iface}
        check(usedp == set(range(len(c.ports))), "ports %s, used %s" % ([p[:4] for p in c.ports], sorted(usedp)))
    X.distinct.add(c.key())
    return c


def box_case(nx, ny, per, kinds, seq):
    """seq: (component, index of the location among those left) for each step."""
    clear()
    b = BoxChannelConfig(nx, ny, list(per))
    for c in makecomps(kinds):
        b.addComponent(c)
    left = [(i, j) for i in range(nx) for j in range(ny)]
    names = {}
    for comp, li in seq:
        have = [tuple(int(v) for v in x) for x in b.avail_locs]
        check(sorted(have) == sorted(left), "available locations %s, free are %s" % (have, left))
        for l in itertools.product(range(-1, nx + 1), range(-1, ny + 1)):
            check(bool(b.isLocationAvailable(np.array(l))) == (l in left), "isLocationAvailable(%s) with %s free" % (l, left))
        l = have[li]
        names[l] = kinds[comp]
        left.remove(l)
        b.addMesh(comp, li)
        X.transitions += 1
    b.close()
    b.save("x.h5")
    c = checkbox(take("x.h5"), nx, ny, per, names, kinds)
    check(len(h5py.FILES) == 1, "files %s" % list(h5py.FILES))
    b.save("y.h5")  # saving does not change the configuration
    check(Cfg(take("y.h5")).key() == c.key(), "the configuration saved a second time differs")


def box_all(nx, ny, per, kinds, offset):
    clear()
    b = BoxChannelConfig(nx, ny, list(per))
    for c in makecomps(kinds):
        b.addComponent(c)
    n = quiet(b.GenerateAllConfigs, offset)
    want = len(kinds) ** (nx * ny)
    check(n == want, "GenerateAllConfigs returned %s, there are %d configurations" % (n, want))
    check(len(h5py.FILES) == want and len(h5py.ORDER) == want, "%d files written %d times for %d configurations" % (len(h5py.FILES), len(h5py.ORDER), want))
    seen = set()
    for k in range(want):
        f = take("%s-%05d.h5" % (b.prefix, offset + k))
        c = Cfg(f)
        names = {tuple(int(v) for v in c.conf[m, :2]): c.name(m) for m in range(len(c.mesh))}
        checkbox(f, nx, ny, per, names, kinds)
        check(len(names) == nx * ny, "locations %s" % sorted(names))
        seen.add(tuple(sorted(names.items())))
        X.transitions += 1
    check(len(seen) == want, "%d different configurations out of %d" % (len(seen), want))
    check(len(b.avail_locs) == nx * ny, "the generator has been used up")


class Choices:
    """numpy.random.randint under control: the k-th call returns the k-th digit of a number."""

    def __init__(self, digits):
        self.d, self.k, self.bases = list(digits), 0, []

    def __call__(self, low, high=None, size=None, dtype=int):
        if size is not None:
            return np.array([self(low, high) for _ in range(int(np.prod(size)))]).reshape(size)
        lo, hi = (0, low) if high is None else (low, high)
        check(hi > lo, "randint of an empty range")
        self.bases.append(hi - lo)
        v = self.d[self.k] if self.k < len(self.d) else 0
        self.k += 1
        return lo + v % (hi - lo)


def random_runs(run):
    """run(choice) for every sequence of choices."""
    stack, n = [[]], 0
    real = np.random.randint
    while stack:
        pre = stack.pop()
        ch = Choices(pre)
        np.random.randint = ch
        try:
            run(ch)
        finally:
            np.random.randint = real
        n += 1
        X.transitions += 1
        for k in range(len(pre), len(ch.bases)):
            for v in range(1, ch.bases[k]):
                stack.append(pre + [0] * (k - len(pre)) + [v])
    return n


def box_random(nx, ny, per, kinds):
    seen = set()

    def run(ch):
        clear()
        b = BoxChannelConfig(nx, ny, list(per))
        for c in makecomps(kinds):
            b.addComponent(c)
        quiet(b.CreateRandomConfig, "r.h5")
        f = take("r.h5")
        c = Cfg(f)
        names = {tuple(int(v) for v in c.conf[m, :2]): c.name(m) for m in range(len(c.mesh))}
        checkbox(f, nx, ny, per, names, kinds)
        check(len(names) == nx * ny, "locations %s" % sorted(names))
        seen.add(tuple(sorted(names.items())))
        check(len(b.avail_locs) == nx * ny and len(b.meshes) == 0, "the generator has been used up")
    n = random_runs(run)
    if n > 1:
        check(len(seen) == len(kinds) ** (nx * ny), "all random choices together give %d of the %d configurations" % (len(seen), len(kinds) ** (nx * ny)))


def box_two(order, specs):
    """Two configurations built alternately do not influence each other."""
    out = []
    for alone in (True, False):
        clear()
        objs, todo = [], []
        for (nx, ny, per, kinds) in specs:
            b = BoxChannelConfig(nx, ny, list(per))
            for c in makecomps(kinds):
                b.addComponent(c)
            objs.append(b)
            todo.append(nx * ny)
        for w in (sorted(order) if alone else order):
            objs[w].addMesh(len(objs[w].meshes) % len(objs[w].comps), 0)
            X.transitions += 1
        for b, s in zip(objs, specs):
            check(len(b.meshes) == s[0] * s[1], "meshes")
            b.close()
        for k, b in enumerate(objs):
            b.save("%d.h5" % k)
        out.append([Cfg(take("%d.h5" % k)).key() for k in range(len(objs))])
    check(out[0] == out[1], "built alternately (%s) the configurations differ from those built one after the other" % (order,))


def comp_file():
    """box_comp_config.py: the ports between all components, and one mesh of each."""
    clear()
    with contextlib.redirect_stdout(io.StringIO()):
        runpy.run_path(os.path.join(UTIL, "box_comp_config.py"), run_name="__main__")
    kinds = ["empty", "square-circle", "square-square", "square-triangle", "square-star"]
    f = take("box-channel.comp.h5")
    c = Cfg(f)
    check(sorted(c.comps) == sorted(kinds), "components %s" % c.comps)
    names = {tuple(int(v) for v in c.conf[m, :2]): c.name(m) for m in range(len(c.mesh))}
    check(sorted(names.values()) == sorted(kinds), "meshes %s" % names)
    checkbox(f, 1, 5, (False, False), names, c.comps, unused_ok=True)
    want = {(a, b, f1, f2) for a in kinds for b in kinds for f1, f2 in ((1, 3), (2, 4))}
    check({p[:4] for p in c.ports} == want, "ports missing %s, not asked for %s" % (want - {p[:4] for p in c.ports}, {p[:4] for p in c.ports} - want))
    for p in c.ports:
        check(tuple(p[4]) == DIR2[p[2]] + (0, 0, 0, 0), "port %s places the second component at %s" % (p[:4], p[4]))


# ------------------------------------------------------------------------------------------------------------ channels
def walks(n):
    """Self-avoiding walks of n steps that do not start against the inlet."""
    def rec(path):
        if len(path) == n + 1:
            yield tuple(path)
            return
        for d in (DIR2[1], DIR2[2], DIR2[3], DIR2[4]):
            if len(path) == 1 and d == DIR2[4]:
                continue
            l = (path[-1][0] + d[0], path[-1][1] + d[1])
            if l not in path:
                yield from rec(path + [l])
    return rec([(0, 0)])


def checkchannel(f, path, comp):
    c = Cfg(f)
    locs = tuple(tuple(x) for x in ints(c.conf[:, :2], "locations").tolist())
    check(locs == path and not c.conf[:, 2:].any(), "meshes at %s, added at %s" % (c.conf.tolist(), path))
    check(c.comps == [comp] and not c.mesh.any(), "components %s of types %s" % (c.comps, c.mesh))
    step = [(path[k + 1][0] - path[k][0], path[k + 1][1] - path[k][1]) for k in range(len(path) - 1)]
    want = [((k, FACE2[d]), (k + 1, FACE2[(-d[0], -d[1])])) for k, d in enumerate(step)]
    c.pairs(want, lambda r: np.array(DIR2[r[2]], dtype=float))
    c.closed(boxfaces)
    n = len(path)
    for m in range(n):
        att = {r[2]: r[0] for r in c.bdr if r[1] == m}
        din = step[m - 1] if m > 0 else (1, 0)
        dout = step[m] if m < n - 1 else din
        if m == 0:
            check(att.get(4) == 4, "the inlet has attribute %s" % att.get(4))
        if m == n - 1:
            check(att.get(FACE2[dout]) == 2, "the outlet (face %d of mesh %d) has attribute %s" % (FACE2[dout], m, att.get(FACE2[dout])))
        side = [q for q in (1, 2, 3, 4) if q not in (FACE2[dout], FACE2[(-din[0], -din[1])])]
        check(sorted(att.get(q, 0) for q in side) == [1, 3], "mesh %d: the walls %s have attributes %s" % (m, side, [att.get(q) for q in side]))
        if din == dout:
            right = FACE2[(din[1], -din[0])]
            check(att[right] == 1, "mesh %d: attributes %s, flow in the direction %s" % (m, att, din))
        if 5 in boxfaces(comp):
            check(att.get(5) == 5, "mesh %d: the object has attribute %s" % (m, att.get(5)))
    X.distinct.add(c.key())
    return c


def channel_case(comp, path):
    clear()
    ch = ChannelConfig(comp)
    for k in range(1, len(path)):
        occ = set(path[:k])
        faces, locs = ch.getAvailableFaces()
        free = {}
        for d in DIR2.values():
            l = (path[k - 1][0] + d[0], path[k - 1][1] + d[1])
            if l not in occ and not (k == 1 and d == DIR2[4]):
                free[FACE2[d]] = l
        got = {int(a): tuple(int(v) for v in b) for a, b in zip(faces, locs)}
        check(got == free, "available after %s: %s, free are %s" % (path[:k], got, free))
        ch.addMesh(0, np.array(path[k]))
        X.transitions += 1
    ch.close()
    ch.save("c.h5")
    checkchannel(take("c.h5"), path, comp)


def channel_all(comp, n, offset):
    clear()
    ch = ChannelConfig(comp)
    cnt = quiet(ch.GenerateAllConfigs, n, offset)
    want = {p: 0 for p in walks(n)}
    check(cnt == len(want), "GenerateAllConfigs returned %s, there are %d channels" % (cnt, len(want)))
    check(len(h5py.ORDER) == len(want) and len(h5py.FILES) == len(want), "%d files written %d times" % (len(h5py.FILES), len(h5py.ORDER)))
    for k in range(cnt):
        f = take("%s-%05d.h5" % (ch.prefix, offset + k))
        path = tuple(tuple(int(v) for v in x) for x in np.asarray(f["components"]["configuration"][()])[:, :2])
        check(path in want, "a channel along %s" % (path,))
        want[path] += 1
        check(want[path] == 1, "the channel along %s is written twice" % (path,))
        checkchannel(f, path, comp)
        X.transitions += 1


def channel_random(comp, n):
    seen = set()

    def run(ch_):
        clear()
        ch = ChannelConfig(comp)
        quiet(ch.CreateRandomConfig, n, "r.h5")
        f = take("r.h5")
        path = tuple(tuple(int(v) for v in x) for x in np.asarray(f["components"]["configuration"][()])[:, :2])
        check(len(path) == n + 1, "%d meshes, asked for %d after the first" % (len(path), n))
        checkchannel(f, path, comp)
        seen.add(path)
    k = random_runs(run)
    if k > 1:
        check(seen == set(walks(n)), "all random choices together give %d of %d channels" % (len(seen), sum(1 for _ in walks(n))))


# ------------------------------------------------------------------------------------------------- fixed configurations
def rect_pairs(rects):
    """Abutting sides of rectangles (x, y, w, h): pairs of (mesh, face)."""
    w = []
    e = 1e-9
    for a, A in enumerate(rects):
        for b, B in enumerate(rects):
            if abs(A[0] + A[2] - B[0]) < e and min(A[1] + A[3], B[1] + B[3]) - max(A[1], B[1]) > e:
                w.append(((a, 2), (b, 4)))
            if abs(A[1] + A[3] - B[1]) < e and min(A[0] + A[2], B[0] + B[2]) - max(A[0], B[0]) > e:
                w.append(((a, 3), (b, 1)))
    for a, A in enumerate(rects):
        for b, B in enumerate(rects[:a]):
            ox = min(A[0] + A[2], B[0] + B[2]) - max(A[0], B[0])
            oy = min(A[1] + A[3], B[1] + B[3]) - max(A[1], B[1])
            check(not (ox > e and oy > e), "meshes %d and %d overlap" % (a, b))
    return w


def sidefaces(name):
    return (1, 2, 3, 4)


def scaleup(n):
    clear()
    quiet(sample_comp.ConfigScaleUp, n)
    c = Cfg(take("scaleup.global.%d.h5" % n), ports=False)
    check(c.comps == ["square"] and c.pname == ["port1", "port2"], "components %s, ports %s" % (c.comps, c.pname))
    check(sorted(map(tuple, c.conf[:, :2].tolist())) == sorted((float(i), float(j)) for i in range(n) for j in range(n)) and not c.conf[:, 2:].any(),
          "meshes at %s" % c.conf.tolist())
    c.pairs(rect_pairs([(x[0], x[1], 1., 1.) for x in c.conf.tolist()]))
    for r in c.iface:
        check((r[2], r[3]) == ((3, 1), (2, 4))[r[4]], "interface row %s" % (r,))
    c.closed(sidefaces)
    for r in c.bdr:
        check(r[0] == r[2], "boundary row %s" % (r,))
    X.distinct.add(c.key())
    X.transitions += 1


def global2d():
    clear()
    quiet(sample_comp.Config2D)
    c = Cfg(take("global.h5"), ports=False)
    c.pairs(rect_pairs([(x[0], x[1], 1., 1.) for x in c.conf.tolist()]))
    c.closed(sidefaces)
    for r in c.bdr:
        check(r[0] == r[2], "boundary row %s" % (r,))
    # vertices and boundary elements of the 1x1 mesh "square": vertices (0,0), (1,0), (0,1), (1,1);
    # boundary elements bottom, top, left, right
    V = {0: (0, 0), 1: (1, 0), 2: (0, 1), 3: (1, 1)}
    for k, nm in enumerate(c.pname):
        f = take(nm + ".h5")
        check(int(f.attrs["number_of_ports"]) == 1, "number of ports")
        g = f["0"]
        check(g.attrs["name"] == nm and g.attrs["component1"] == "square" and g.attrs["component2"] == "square", "names of the port")
        a1, a2 = int(g.attrs["bdr_attr1"]), int(g.attrs["bdr_attr2"])
        rows = [r for r in c.iface if r[4] == k]
        check(rows and all((r[2], r[3]) == (a1, a2) for r in rows), "port %s between %d and %d, interfaces %s" % (nm, a1, a2, rows))
        d = DIR2[a1]
        v1, v2 = [int(v) for v in g["vtx1"][()]], [int(v) for v in g["vtx2"][()]]
        on = {1: lambda p: p[1] == 0, 2: lambda p: p[0] == 1, 3: lambda p: p[1] == 1, 4: lambda p: p[0] == 0}
        check(len(v1) == 2 == len(v2) and len(set(v1)) == 2, "vertices %s %s" % (v1, v2))
        for p, q in zip(v1, v2):
            check(on[a1](V[p]) and (V[q][0] + d[0], V[q][1] + d[1]) == V[p], "port %s matches the vertex %s with %s" % (nm, V[p], V[q]))
        check(len(g["be1"][()]) == 1 == len(g["be2"][()]), "one boundary element on each side")
        BE = {1: 0, 3: 1, 4: 2, 2: 3}
        check((int(g["be1"][0]), int(g["be2"][0])) == (BE[a1], BE[a2]), "boundary elements %s %s" % (g["be1"][0], g["be2"][0]))
    X.distinct.add(c.key())


def global3d():
    clear()
    quiet(sample_comp.Config3D)
    c = Cfg(take("global.h5"), ports=False)
    check(c.comps == ["cube"] and len(c.mesh) == 8, "components")
    F = {1: (0, 0, -1), 2: (0, -1, 0), 3: (1, 0, 0), 4: (0, 1, 0), 5: (-1, 0, 0), 6: (0, 0, 1)}
    at = {tuple(x[:3]): m for m, x in enumerate(c.conf.tolist())}
    check(sorted(at) == sorted(itertools.product((0., .5), repeat=3)), "meshes at %s" % sorted(at))
    want, dirs = [], {}
    for l, m in at.items():
        for f, o in ((3, 5), (4, 2), (6, 1)):
            l2 = tuple(a + .5 * b for a, b in zip(l, F[f]))
            if l2 in at:
                want.append(((m, f), (at[l2], o)))
    c.pairs(want)
    for r in c.iface:
        dirs.setdefault(r[4], set()).add((r[2], r[3]))
    check(sorted(map(sorted, dirs.values())) == sorted([[(3, 5)], [(4, 2)], [(6, 1)]]), "one port per direction: %s" % dirs)
    c.closed(lambda n: (1, 2, 3, 4, 5, 6))
    for r in c.bdr:
        check(r[0] == r[2], "boundary row %s" % (r,))
    X.distinct.add(c.key())


def objects(fn, file):
    """ConfigChannelFlow, ConfigTestMultiComponent: unit boxes, objects inside have attribute 5."""
    clear()
    quiet(fn)
    c = Cfg(take(file), ports=False)
    c.pairs(rect_pairs([(x[0], x[1], 1., 1.) for x in c.conf.tolist()]))
    by = {}
    for r in c.iface:
        k = (c.name(r[0]), c.name(r[1]), r[2], r[3])
        check(by.setdefault(r[4], k) == k, "port %d is used for %s and %s" % (r[4], by[r[4]], k))
    check(sorted(by) == list(range(len(c.pname))), "ports %s, used %s" % (c.pname, sorted(by)))
    c.closed(boxfaces)
    for r in c.bdr:
        check(r[0] == r[2], "boundary row %s" % (r,))
    X.distinct.add(c.key())


def simple_l():
    clear()
    quiet(linelast_comp.SimpleL)
    c = Cfg(take("linelast.simpleL.h5"))
    check([c.name(m) for m in range(len(c.mesh))] == ["joint2D", "rod2D_H", "rod2D_V"], "meshes %s" % c.mesh)
    # joint 1x1, rods 4x1 and 1x4 (any length is right here)
    size = {"joint2D": (1., 1.), "rod2D_H": (4., 1.), "rod2D_V": (1., 4.)}
    c.pairs(rect_pairs([(x[0], x[1]) + size[c.name(m)] for m, x in enumerate(c.conf.tolist())]))
    c.closed(sidefaces)
    at = {(r[1], r[2]): r[0] for r in c.bdr}
    check(at[(1, 2)] == 1 and at[(2, 3)] == 2 and all(v == 3 for k, v in at.items() if k not in ((1, 2), (2, 3))), "boundary attributes %s" % at)


def checklattice(c, nx, ny, wh, wv, lh, lv, names, perm=0):
    """A lattice of nx x ny cells: joints wv x wh, horizontal rods lh x wh, vertical rods wv x lv."""
    size = {names[0]: (wv, wh), names[1]: (lh, wh), names[2]: (wv, lv)}
    check(c.comps == list(names), "components %s" % c.comps)
    px, py = lh + wv, lv + wh
    want = []
    want += [(i * px, j * py, names[0]) for i in range(nx + 1) for j in range(ny + 1)]
    want += [(i * px + wv, j * py, names[1]) for i in range(nx) for j in range(ny + 1)]
    want += [(i * px, j * py + wh, names[2]) for i in range(nx + 1) for j in range(ny)]
    r6 = lambda v: round(v, 9) + 0.
    got = [(x[0], x[1], c.name(m)) for m, x in enumerate(c.conf.tolist())]
    check(not c.conf[:, 2:].any(), "configuration")
    k = lambda L: sorted((r6(a), r6(b), n) for a, b, n in L)
    check(k(got) == k(want), "meshes %s, the lattice consists of %s" % (k(got), k(want)))
    R = [(x[0], x[1]) + size[c.name(m)] for m, x in enumerate(c.conf.tolist())]
    c.pairs(rect_pairs(R))
    check(len(c.ports) == 4, "ports %s" % [p[:4] for p in c.ports])
    pw = {(names[0], names[1], 2, 4): (wv, 0.), (names[0], names[1], 4, 2): (-lh, 0.), (names[0], names[2], 3, 1): (0., wh), (names[0], names[2], 1, 3): (0., -lv)}
    check({p[:4] for p in c.ports} == set(pw), "ports %s" % [p[:4] for p in c.ports])
    for p in c.ports:
        check(np.allclose(p[4][:2], pw[p[:4]], atol=1e-12) and not p[4][2:].any(), "port %s places the second component at %s" % (p[:4], p[4]))
    c.closed(sidefaces)
    W, H = nx * px + wv, ny * py + wh
    e = 1e-9
    for r in c.bdr:
        x, y, w, h = R[r[1]]
        outer = {1: abs(y) < e, 2: abs(x + w - W) < e, 3: abs(y + h - H) < e, 4: abs(x) < e}[r[2]]
        want_ = ((r[2] - 1 - perm) % 4) + 1 if outer else 5
        check(r[0] == want_, "boundary row %s: the %s face at (%g, %g) has attribute %d, expected %d" % (r, "outer" if outer else "inner", x, y, r[0], want_))
    X.distinct.add(c.key())
    X.transitions += 1


LN = ["joint2D", "rod2D_H", "rod2D_V"]


class F_:  # h5py.File in memory
    def __init__(self, data, names):
        clear()
        n_mesh, mt, mc, iface, bdr, cc = data
        check(n_mesh == len(mt), "%d meshes, %d types" % (n_mesh, len(mt)))
        with h5py.File("l.h5", "w") as f:
            linelast_comp_base.Configure2DLatticeComponent(f, names, cc, n_mesh, mt, mc, iface, bdr)
        self.c = Cfg(take("l.h5"))


def lattice(nx, ny, dims):
    wh, wv, lh, lv = dims
    checklattice(F_(linelast_comp_base.cw_generate_nu_mxn(nx, ny, wh, wv, lh, lv), LN).c, nx, ny, wh, wv, lh, lv, LN)
    if wh == wv and lh == lv:
        checklattice(F_(linelast_comp_base.cw_generate_mxn(nx, ny, wh, lh), LN).c, nx, ny, wh, wv, lh, lv, LN)
    if nx == 1 and ny == 1:
        checklattice(F_(linelast_comp_base.cw_generate_nu_1x1(wh, wv, lh, lv), LN).c, 1, 1, wh, wv, lh, lv, LN)
        if wh == wv and lh == lv:
            checklattice(F_(linelast_comp_base.cw_generate_1x1(wh, lh), LN).c, 1, 1, wh, wv, lh, lv, LN)
    # all rotations of the boundary attributes; the original stays
    for gen in [linelast_comp_base.cw_generate_nu_mxn(nx, ny, wh, wv, lh, lv)] + ([linelast_comp_base.cw_generate_nu_1x1(wh, wv, lh, lv)] if nx == ny == 1 else []):
        b0 = np.array(gen[4]).copy()
        for j in range(4):
            b = linelast_cwtrain.PermuteBdrData(gen[4], j)
            checklattice(F_(gen[:4] + (b,) + gen[5:], LN).c, nx, ny, wh, wv, lh, lv, LN, perm=j)
            check(np.array_equal(b0, gen[4]), "PermuteBdrData changed its argument")


def cantilever(nx, ny):
    clear()
    quiet(linelast_comp.LatticeCantilever, nx, ny)
    checklattice(Cfg(take("linelast.lattice.h5")), nx, ny, 1., 1., 4., 4., LN)


def train(fn, files, nx, ny, dims, names, perms):
    clear()
    quiet(fn)
    check(len(h5py.FILES) == len(files), "files %s" % sorted(h5py.FILES))
    for f, p in zip(files, perms):
        checklattice(Cfg(take(f)), nx, ny, *dims, names, perm=p)


def shift(nattr, nel, pre, digits):
    """Training meshes: the boundary attributes shifted cyclically, everything else unchanged."""
    d = os.path.join(os.getcwd(), "shift")
    os.makedirs(os.path.join(d, "sub.dir"), exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    try:
        bd = []
        for a in range(nattr):
            for k in range(nel):
                bd.append((a + 1, 1, 10 ** digits + len(bd), 10 ** digits + len(bd) + 1))
        head = ["MFEM mesh v1.0\n", "\n", "#\n", "# a comment\n", "#\n", "\n", "dimension\n", "2\n", "\n", "elements\n", "%d\n" % nel]
        head += ["%d 3 %d %d %d %d\n" % (k + 1, k, k + 1, k + 2, k + 3) for k in range(nel)]
        head += ["\n", "boundary\n", "%d\n" % len(bd)]
        tail = ["\n", "vertices\n", "2\n", "2\n", "0 0\n", "1 0\n"]
        path = pre + "joint2D.mesh"
        with open(path, "w") as f:
            f.write("".join(head + [" ".join(map(str, b)) + "\n" for b in bd] + tail))
        before = open(path).read()
        quiet(linelast_cwtrain.shift_mesh_battrs, nattr, path)
        check(open(path).read() == before, "the mesh itself was changed")
        for i in range(nattr):
            p = pre + "joint2D_%d.mesh" % i
            check(os.path.exists(p), "no file %s; there are %s" % (p, sorted(os.listdir(d)) + sorted(os.listdir(os.path.join(d, "sub.dir")))))
            t = open(p).read().split("\n")
            want = "".join(head).split("\n")[:-1] + [" ".join(map(str, ((b[0] - 1 + i) % nattr + 1,) + b[1:])) for b in bd] + "".join(tail).split("\n")
            check(t == want, "variant %d: %s, expected %s" % (i, [x for x, y in zip(t, want) if x != y][:3], [y for x, y in zip(t, want) if x != y][:3]))
            X.transitions += 1
            X.distinct.add(("shift", nattr, nel, i, tuple(t)))
            os.remove(p)
        os.remove(path)
    finally:
        os.chdir(old)


# ------------------------------------------------------------------------------------------------------------ the space
def main():
    T = X.thorough
    K2 = ("empty", "square-circle")
    PERS = list(itertools.product((False, True), repeat=2))
    sizes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)] + ([(1, 4), (4, 1), (3, 3), (2, 4), (4, 2)] if T else [])
    for nx, ny in sizes:
        n = nx * ny
        for per in PERS:
            # orders of the locations: all up to 4 boxes, else rotations of first, last and middle choices
            if n <= 4:
                orders = list(itertools.product(*[range(n - k) for k in range(n)]))
            else:
                orders = [tuple(0 for _ in range(n)), tuple(n - k - 1 for k in range(n))] + [tuple(q if q < n - k else (n - k) // 2 for k in range(n)) for q in range(1, n)]
            for od in orders:
                for kinds in (K2, ("square-star",), ("pipe-hub", "empty", "square-square")):
                    if len(kinds) == 1:
                        assigns = [(0,) * n]
                    elif len(kinds) == 2 and (n <= 4 and (od == orders[0] or T) or n <= 6 and od == orders[0]):
                        assigns = list(itertools.product((0, 1), repeat=n))
                    elif len(kinds) == 2:
                        assigns = [tuple((q + k) % 2 for k in range(n)) for q in (0, 1)]
                    elif n <= 3 or (T and n == 4):
                        assigns = list(itertools.product((0, 1, 2), repeat=n))
                    else:
                        assigns = [tuple((q + k * s) % 3 for k in range(n)) for q in range(3) for s in (0, 1, 2)]
                    for a in assigns:
                        cid = "box %dx%d per=%d%d %s order=%s comps=%s" % (nx, ny, per[0], per[1], "+".join(kinds), ".".join(map(str, od)), "".join(map(str, a)))
                        X.run(cid, box_case, nx, ny, per, kinds, list(zip(a, od)))
    for nx, ny in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2)] if T else []):
        for per in PERS:
            for kinds in (K2, ("empty", "square-circle", "square-square"), ("square-triangle",), ("empty", "square-circle", "square-square", "square-triangle", "square-star")):
                if len(kinds) ** (nx * ny) > (800 if T else 100) and not (per == (False, False) and nx * ny == 4):
                    continue
                for off in (0, 7) if len(kinds) == 2 else (0,):
                    X.run("box all %dx%d per=%d%d %s from %d" % (nx, ny, per[0], per[1], "+".join(kinds), off), box_all, nx, ny, per, kinds, off)
                if len(kinds) ** (nx * ny) <= 100:
                    X.run("box random %dx%d per=%d%d %s" % (nx, ny, per[0], per[1], "+".join(kinds)), box_random, nx, ny, per, kinds)
    s1, s2 = (2, 2, (False, False), K2), (2, 1, (True, False), ("square-star", "empty"))
    for w in sorted(set(itertools.permutations((0, 0, 0, 0, 1, 1)))):
        X.run("two boxes %s" % "".join(map(str, w)), box_two, w, [s1, s2])
    X.run("component file", comp_file)
    depth = 8 if T else 6
    for comp in ("empty", "pipe-hub"):
        for n in range(1, depth + 1):
            for p in walks(n):
                X.run("channel %s %s" % (comp, "".join("%d" % FACE2[(p[k + 1][0] - p[k][0], p[k + 1][1] - p[k][1])] for k in range(n))), channel_case, comp, p)
            if n <= (8 if T else 6):
                for off in (0, 5):
                    X.run("channel all %s %d from %d" % (comp, n, off), channel_all, comp, n, off)
            if n <= (6 if T else 4):
                X.run("channel random %s %d" % (comp, n), channel_random, comp, n)
    for n in range(1, 13 if T else 8):
        X.run("scaleup %d" % n, scaleup, n)
    X.run("Config2D", global2d)
    X.run("Config3D", global3d)
    X.run("ConfigChannelFlow", objects, sample_comp.ConfigChannelFlow, "stokes.channel.h5")
    X.run("ConfigTestMultiComponent", objects, sample_comp.ConfigTestMultiComponent, "test.multi_comp.h5")
    X.run("SimpleL", simple_l)
    M = 6 if T else 4
    for nx in range(1, M + 1):
        for ny in range(1, M + 1):
            for dims in ((1., 1., 4., 4.), (.2, .2, 6., 4.), (1., .5, 3., 2.), (.3, .7, 1.1, 2.3)):
                X.run("lattice %dx%d %s" % (nx, ny, dims), lattice, nx, ny, dims)
            X.run("cantilever %dx%d" % (nx, ny), cantilever, nx, ny)
    tr = ["linelast.comp_train%d.h5" % i for i in range(4)]
    X.run("CWTrain1x1", train, linelast_cwtrain.CWTrain1x1, tr, 1, 1, (1., 1., 4., 4.), LN, range(4))
    X.run("CWTrain2x2", train, linelast_cwtrain.CWTrain2x2, tr, 2, 2, (1., 1., 4., 4.), LN, range(4))
    ON = ["optjoint", "optbeam", "optcol"]
    X.run("CWTrainOptROM", train, linelast_cwtrain.CWTrainOptROM, tr, 1, 1, (.2, .2, 6., 4.), ON, range(4))
    X.run("CWTrainOptFOM", train, linelast_cwtrain.CWTrainOptFOM, ["linelast.optfom.h5"], 3, 3, (.2, .2, 6., 4.), ON, [0])
    for nattr in (1, 2, 3, 4, 5, 6):
        # vertex numbers as large as a mesh of that many elements can have them
        for nel, digits in ((1, 0), (2, 0), (5, 0), (16, 0), (16, 1), (150, 0), (150, 2)):
            for pre in ("", "./", "sub.dir/"):
                X.run("shift %d attributes %d elements %s digits=%d" % (nattr, nel, pre or "here", digits), shift, nattr, nel, pre, digits)
    X.finish()


main()
