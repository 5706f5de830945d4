"""Harnesses about boolean combinations of solids."""
from .geometry import GEO

BOOL = GEO + '''
OPS = {"union": cg.csg.union, "intersect": cg.csg.intersect, "difference": cg.csg.difference}


class Solid(prims.SurfacePrimitive):
    """an arbitrary closed convex solid: every ray misses it or is inside it on one interval"""
    def __init__(self, k):
        super().__init__()
        self.k = k
        self.bounding_points = np.array([[-50., 50.], [-50., 50.], [-50., 50.], [1., 1.]])

    def intersect(self, rays):
        rays = np.atleast_3d(rays)
        cols = np.concatenate((rays[0], rays[1]), axis=0)
        e = UFALL("entry%d" % self.k, "choice:-2,-1.25,-0.5,0.25,1,1.75", cols) + 0.01 * self.k
        e = e + UFALL("close%d" % self.k, "choice:0,0,0.0097", cols)       # some faces nearly coincide
        w = UFALL("width%d" % self.k, "choice:0.3,0.7597,1.1,1.9,2.9,4.1", cols) + 0.003 * self.k
        m = UFALL("miss%d" % self.k, "choice:0,0,0,1", cols)
        return np.stack((np.where(m > 0, np.inf, e), np.where(m > 0, np.inf, e + w)))

    def normal(self, coords):
        return np.tile(np.array([[0.], [0.], [1.], [0.]]), (1, coords.shape[1])) if coords.ndim == 2 else np.array([0., 0., 1., 0.])


class Body(TracerSurface):
    surface = Solid

    def __init__(self, k):
        super().__init__((k,))


def leaf(i, kinds):
    if kinds is None:
        return Body(i)
    k = kinds[i]
    o = {"sphere": lambda: cg.Sphere(1.0), "cylinder": lambda: cg.Cylinder(0.8, -1., 1.), "paraboloid": lambda: cg.Paraboloid(0.5, 1.5),
         "cuboid": lambda: cg.Cuboid((-0.9, -0.7, -0.8), (0.8, 1., 0.9))}[k]()
    return o


def build(expr, kinds=None, place=None, nodes=None):
    """(nodes: filled with the operands) -> (object, leaves, membership function, sign of the outward normal per leaf)"""
    if isinstance(expr, int):
        o = leaf(expr, kinds)
        if place is not None:
            place(o, expr)
        return o, [o], (lambda v: v[0]), [1]
    op, a, b = expr
    x, lx, mx, sx = build(a, kinds, place, None if nodes is None else nodes.setdefault("l", {}))
    y, ly, my, sy = build(b, kinds, place, None if nodes is None else nodes.setdefault("r", {}))
    if nodes is not None:
        nodes["left"], nodes["right"] = x, y
    k = len(lx)
    if op == "union":
        f = lambda v: OR(mx(v[:k]), my(v[k:]))
    elif op == "intersect":
        f = lambda v: AND(mx(v[:k]), my(v[k:]))
    else:
        f = lambda v: AND(mx(v[:k]), NOT(my(v[k:])))
        sy = [-s for s in sy]
    return OPS[op](x, y), lx + ly, f, sx + sy


def required(leaves, member, rays):
    """the crossings of the combined solid's surface, in order, and the leaf each belongs to"""
    spans = [l.intersect(rays)[0] for l in leaves]
    ts, ok = [], []
    for j, h in enumerate(spans):
        for t in (h[0], h[1]):
            before = [AND(g[0] < t, t <= g[1]) for g in spans]
            after = [AND(g[0] <= t, t < g[1]) for g in spans]
            ts.append(t)
            b, a = member(before), member(after)
            ok.append(AND(np.isfinite(t), OR(AND(a, NOT(b)), AND(b, NOT(a)))))
    vals = np.stack([np.where(k, t, np.inf) for k, t in zip(ok, ts)])
    order = np.sort(vals, axis=0)
    rows = []
    for i in range(len(ts)):
        s = np.full(order.shape[1], -1)
        for j in range(len(ts)):
            s = np.where(AND(ok[j], ts[j] == order[i]), leaves[j // 2].get_id(), s)
        rows.append(s)
    return order, np.stack(rows)


def compare(label, obj, leaves, member, rays):
    want, surf = required(leaves, member, rays)
    hits, ids = obj.intersect(rays)
    CHECK_EQ(label + "hit distances are the crossings of the combined surface", hits, want)
    CHECK_EQ(label + "every hit is attributed to the surface it lies on", ids, surf, where=np.isfinite(want))
'''

SEMANTICS = BOOL + '''
def main(expr):
    n = LANE("n")
    obj, leaves, member, _ = build(expr)
    o, d = rays_at(n)
    compare("", obj, leaves, member, np.stack((o, d)))
    pairs = obj.surface_ids
    CHECK("the compound lists its surfaces", sorted([p[0] for p in pairs]) == sorted([l.get_id() for l in leaves]))
    for i, s in pairs:
        CHECK("ids lead to the surface they belong to", s.get_id() == i and any([SAMEOBJ(s, l) for l in leaves]))
'''

SIGNS = BOOL + '''
def signs(label, leaves, want):
    for j, l in enumerate(leaves):
        q = np.array([0.2, 0.1, 0.4, 1.]).reshape(4, 1)
        CHECK_EQ("%s (surface %d)" % (label, j), l.get_world_normals(q)[:3, 0], np.array([0, 0, 1.]) * want[j])


def main(expr):
    obj, leaves, member, want = build(expr)
    signs("surface normals point out of the combined solid", leaves, want)
    obj.invert_normals()
    signs("inverting a compound flips every normal", leaves, [-s for s in want])
    obj.reset_normals()
    signs("resetting a compound makes the normals point outward again", leaves, want)
    obj.reset_normals()
    signs("resetting twice changes nothing", leaves, want)
'''

# trees of operations over leaves numbered in order
TREES2 = [(op, 0, 1) for op in ("union", "intersect", "difference")]
TREES3 = [(a, (b, 0, 1), 2) for a in ("union", "intersect", "difference") for b in ("union", "intersect", "difference")] + \
         [(a, 0, (b, 1, 2)) for a in ("union", "intersect", "difference") for b in ("union", "intersect", "difference")]
TREES4 = [("difference", ("union", 0, 1), ("difference", 2, 3)), ("intersect", ("difference", 0, 1), ("union", 2, 3)),
          ("difference", 0, ("difference", 1, ("difference", 2, 3))), ("union", ("difference", ("intersect", 0, 1), 2), 3)]

CULL = BOOL + '''
def main(arg):
    expr, kinds, far, steps = arg
    n = LANE("n")
    centers = {}

    def place(o, i):
        v = [SYM("c%d%s" % (i, a), -0.6, 0.6) for a in "xyz"]
        if far:
            v[i % 3] = v[i % 3] + 4. * (1 if i % 2 else -1)
        o.rotate_x(angle("rx%d" % i)).rotate_z(angle("rz%d" % i)).move(v[0], v[1], v[2])
    nodes = {}
    obj, leaves, member, _ = build(expr, kinds, place, nodes)
    for i, st in enumerate(steps):
        target, k = st
        op = Op(k, "o%d" % i)
        if target == "all":
            op.apply(obj)
        elif isinstance(target, int):
            op.apply(leaves[target])
        else:
            op.apply(nodes["left" if target == "l" else "right"])
    # rays aimed at the members
    total = []
    for j, l in enumerate(leaves):
        p = np.zeros((4, n))
        d = np.zeros((4, n))
        t = LVAR("t%d" % j, n, -3, 6)
        for i in range(3):
            p[i] = LVAR("q%d%d" % (j, i), n, -0.8, 0.8)
            d[i] = LVAR("d%d%d" % (j, i), n)
        p[3] = 1
        w = np.matmul(l.get_world_transform(), p)
        compare("", obj, leaves, member, np.stack((w - t * d, d)))
'''

BOUNDS = GEO + '''
def encloses(label, box, w):
    for i, a in enumerate("xyz"):
        CHECK("%s (%s)" % (label, a), AND(w[i] >= box.axis_spans[i, 0] - 1e-6, w[i] <= box.axis_spans[i, 1] + 1e-6))


def main(arg):
    kind, ops = arg
    n = LANE("n")
    obj, par = shape(kind)
    M = np.identity(4)
    pts = points_on(kind, par, n)
    for i in range(len(ops) + 1):
        if i:
            op = Op(ops[i - 1], "o%d" % i)
            op.apply(obj)
            M = np.matmul(op.matrix, M)
        for face, p, _ in pts:
            encloses("the bounding box encloses the surface (%s, after %d moves)" % (face, i), obj.bounding_box, np.matmul(M, p))
            encloses("the bounding volume encloses the surface (%s, after %d moves)" % (face, i), obj.bounding_volume, np.matmul(M, p))
'''
