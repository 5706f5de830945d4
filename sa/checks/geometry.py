"""Harnesses about surfaces: intersections, normals, bounding volumes and boolean combinations."""
from .world import PRE

GEO = PRE + '''
INF = np.inf


def unit():
    """shapes of everyday size, and very large and very small ones"""
    return SYM("size", 1, 1, (1000, 0.01), 0.25)


def shape(kind):
    """-> (object, parameters)"""
    U = unit()
    r = SYM("pr", 0.4, 2) * U
    if kind == "sphere":
        return cg.Sphere(r), r
    if kind == "cylinder":
        lo, h = SYM("plo") * U, SYM("ph", 0.3, 2) * U
        return cg.Cylinder(r, lo, lo + h), (r, lo, lo + h)
    if "default" in kind:
        ASSUME(U == 1)
    if kind == "default cylinder":
        return cg.Cylinder(), (1., -1., 1.)
    if kind == "paraboloid":
        f, h = SYM("pf", 0.2, 2) * U, SYM("ph", 0.3, 2) * U
        return cg.Paraboloid(f, h), (f, h)
    if kind == "plane":
        w, l = SYM("pw", 0.5, 3) * U, SYM("pl", 0.5, 3) * U
        return cg.XYPlane(w, l), (w, l)
    if kind == "cuboid":
        c = [SYM("pc%d" % i) * U for i in range(3)]
        s = [SYM("ps%d" % i, 0.3, 2) * U for i in range(3)]
        return cg.Cuboid(tuple(c), tuple(a + b for a, b in zip(c, s))), (c, [a + b for a, b in zip(c, s)])
    if kind == "cuboid corners swapped":
        c = [SYM("pc%d" % i) * U for i in range(3)]
        s = [SYM("ps%d" % i, 0.3, 2) * U for i in range(3)]
        hi = [a + b for a, b in zip(c, s)]
        return cg.Cuboid((hi[0], c[1], hi[2]), (c[0], hi[1], c[2])), (c, hi)
    if kind == "cuboid from sides":
        s = [SYM("ps%d" % i, 0.3, 2) * U for i in range(3)]
        return cg.Cuboid.from_sides(s[0], s[1], s[2]), ([-a / 2 for a in s], [a / 2 for a in s])
    if kind == "cuboid from length":
        s = SYM("ps", 0.3, 2) * U
        return cg.Cuboid.from_length(s), ([-s / 2] * 3, [s / 2] * 3)
    if kind == "default cuboid":
        return cg.Cuboid(), ([-1.] * 3, [1.] * 3)


SHAPES = ["sphere", "cylinder", "default cylinder", "paraboloid", "plane", "cuboid", "cuboid corners swapped", "cuboid from sides", "cuboid from length", "default cuboid"]


def slab(o, d, lo, hi):
    """interval of t with lo <= o + t d <= hi"""
    z = d == 0
    dd = np.where(z, 1., d)
    a, b = (lo - o) / dd, (hi - o) / dd
    inside = AND(o >= lo, o <= hi)
    return np.where(z, np.where(inside, -INF, INF), np.minimum(a, b)), np.where(z, np.where(inside, INF, -INF), np.maximum(a, b))


def meet(*iv):
    lo, hi = iv[0]
    for a, b in iv[1:]:
        lo, hi = np.maximum(lo, a), np.minimum(hi, b)
    return lo, hi


def quad(a, b, c):
    """interval of t with a t^2 + b t + c <= 0 (a >= 0)"""
    z = a == 0
    disc = b * b - 4 * a * c
    root = np.sqrt(np.maximum(disc, 0))
    aa = np.where(z, 1., a)
    lo, hi = (-b - root) / (2 * aa), (-b + root) / (2 * aa)
    lo, hi = np.where(disc >= 0, lo, INF), np.where(disc >= 0, hi, -INF)
    bz = b == 0
    t = -c / np.where(bz, 1., b)
    llo = np.where(bz, np.where(c <= 0, -INF, INF), np.where(b > 0, -INF, t))
    lhi = np.where(bz, np.where(c <= 0, INF, -INF), np.where(b > 0, t, INF))
    return np.where(z, llo, lo), np.where(z, lhi, hi)


def solid(kind, par, o, d):
    """the part of a ray inside the shape: (entry, exit), entry > exit if it misses"""
    if kind == "sphere":
        return quad(np.sum(d * d, axis=0), 2 * np.sum(o * d, axis=0), np.sum(o * o, axis=0) - par * par)
    if "cylinder" in kind:
        r, lo, hi = par
        return meet(quad(d[0] * d[0] + d[1] * d[1], 2 * (o[0] * d[0] + o[1] * d[1]), o[0] * o[0] + o[1] * o[1] - r * r), slab(o[2], d[2], lo, hi))
    if kind == "paraboloid":
        f, h = par
        return meet(quad(d[0] * d[0] + d[1] * d[1], 2 * (o[0] * d[0] + o[1] * d[1]) - 4 * f * d[2], o[0] * o[0] + o[1] * o[1] - 4 * f * o[2]),
                    slab(o[2], d[2], 0., h))
    if kind == "plane":
        w, l = par
        z = d[2] == 0
        t = -o[2] / np.where(z, 1., d[2])
        x, y = o[0] + t * d[0], o[1] + t * d[1]
        ok = AND(NOT(z), np.abs(x) <= w / 2, np.abs(y) <= l / 2)
        return np.where(ok, t, INF), np.where(ok, t, -INF)
    lo, hi = par
    return meet(*[slab(o[i], d[i], lo[i], hi[i]) for i in range(3)])


# as a fraction of a face: close to its edges, but not on them
EDGE = (4e-4, 2e-3, 0.01, 0.99, 0.998, 0.9995)


def points_on(kind, par, n, tag="s"):
    """-> [(face name, points, outward normal)] in object space, away from edges"""
    if n is None:
        u, w, v, zero = SYM(tag + "1u", 0.03, 0.97, EDGE, 0.3), SYM(tag + "1w", -3, 3), SYM(tag + "1v", 0.03, 0.97, EDGE, 0.3), 0.
    else:
        u, w, v, zero = LVAR(tag + "u", n, 0.03, 0.97, EDGE, 0.3), LVAR(tag + "w", n, -3, 3), LVAR(tag + "v", n, 0.03, 0.97, EDGE, 0.3), np.zeros(n)

    def h(a, b, c, k):
        m = np.zeros(4 if n is None else (4, n))
        m[0], m[1], m[2], m[3] = a, b, c, k
        return m
    if kind == "sphere":
        a, b, c = np.sin(3.1 * u) * np.cos(w), np.sin(3.1 * u) * np.sin(w), np.cos(3.1 * u)
        return [("surface", h(par * a, par * b, par * c, 1), h(a, b, c, 0))]
    if "cylinder" in kind:
        r, lo, hi = par
        return [("side", h(r * np.cos(w), r * np.sin(w), lo + u * (hi - lo), 1), h(np.cos(w), np.sin(w), zero, 0)),
                ("bottom", h(r * u * np.cos(w), r * u * np.sin(w), lo + zero, 1), h(zero, zero, zero - 1, 0)),
                ("top", h(r * u * np.cos(w), r * u * np.sin(w), hi + zero, 1), h(zero, zero, zero + 1, 0))]
    if kind == "paraboloid":
        f, t = par
        z = u * t
        r = np.sqrt(4 * f * z)
        x, y = r * np.cos(w), r * np.sin(w)
        k = np.sqrt(x * x + y * y + 4 * f * f)
        R = np.sqrt(4 * f * t)
        return [("bowl", h(x, y, z, 1), h(x / k, y / k, -2 * f / k, 0)),
                ("cap", h(R * u * np.cos(w), R * u * np.sin(w), t + zero, 1), h(zero, zero, zero + 1, 0))]
    if kind == "plane":
        a, b = par
        return [("face", h(a * (u - 0.5), b * (v - 0.5), zero, 1), h(zero, zero, zero + 1, 0))]
    lo, hi = par
    r = []
    for i in range(3):
        for side, at in ((-1, lo), (1, hi)):
            p = np.zeros(4 if n is None else (4, n))
            nn = np.zeros(4 if n is None else (4, n))
            j, k = (i + 1) % 3, (i + 2) % 3
            p[i], p[j], p[k], p[3] = at[i], lo[j] + u * (hi[j] - lo[j]), lo[k] + v * (hi[k] - lo[k]), 1
            nn[i] = side
            r.append(("face %s%s" % ("-" if side < 0 else "+", "xyz"[i]), p, nn))
    return r


def rays_at(n, axis=False):
    """arbitrary rays; with axis, components of the direction may vanish"""
    o, d = np.zeros((4, n)), np.zeros((4, n))
    for i in range(3):
        o[i] = LVAR("ro%d" % i, n, -3, 3)
        d[i] = LVAR("rd%d" % i, n, -2, 2, (1e-3, -2e-3, 6e-3, 0.03), 0.15)
        if axis:
            d[i] = d[i] * LCHOICE("rz%d" % i, n, (0, 1))
    o[3] = 1
    return o, d


def aimed_at(kind, par, n, axis=False):
    """rays through a point near the shape"""
    p = [np.zeros((4, n)) for _ in range(1)][0]
    o, d = rays_at(n, axis)
    t = LVAR("rt", n, -3, 3, (200, -1000, 30, -20), 0.15)
    for i in range(3):
        p[i] = LVAR("ra%d" % i, n, -1.3, 1.3, (2e-4, -4e-4, 0.01), 0.15) * unit()
    if kind == "paraboloid":
        p[2] = p[2] + unit()
    return np.stack((p - t * unit() * d, d)) + np.array([0, 0, 0, 1.]).reshape(1, 4, 1) * np.array([1., 0.]).reshape(2, 1, 1)
'''

HITS = GEO + '''
def main(arg):
    kind, axis, placed = arg
    n = LANE("n")
    obj, par = shape(kind)
    rays = aimed_at(kind, par, n, axis)
    if placed:
        M = affine("M")
        obj.transform(M)
        world = np.matmul(M, rays)
    else:
        world = rays
    s, so = SNAP(world, "rays"), SNAP(obj, "surface")
    hits, ids = obj.intersect(world)
    UNCHANGED("the rays passed in are not changed", s)
    UNCHANGED("the surface is not changed", so)
    o, d = rays[0, :3], rays[1, :3]
    lo, hi = solid(kind, par, o, d)
    # away from grazing incidence, where rounding decides
    moving = np.sum(d * d, axis=0) > 1e-3
    span = hi - lo
    sharp = AND(moving, OR(np.abs(span) > 1e-4 * unit(), NOT(np.isfinite(span)))) if kind != "plane" else moving
    hit = lo <= hi
    want = np.stack((np.where(hit, lo, INF), np.where(hit, hi, INF)))
    CHECK_EQ("entry distance", hits[0] / unit(), want[0] / unit(), where=sharp)
    CHECK_EQ("exit distance", hits[1] / unit(), want[1] / unit(), where=sharp)
    CHECK("two hit distances per ray", hits.shape[0] == 2)
    CHECK_EQ("hits are attributed to the surface", ids, np.full(hits.shape, obj.get_id()))
'''

NORMALS = GEO + '''
def main(arg):
    kind, how = arg
    n = LANE("n")
    obj, par = shape(kind)
    M = np.identity(4)
    if how != "as built":
        M = affine("M")
        obj.transform(M)
    if how == "flipped":
        obj.invert_normals()
    if how == "reset":
        obj.invert_normals()
        obj.reset_normals()
    N = np.linalg.inv(M)[:3, :3].T
    for face, p, nn in points_on(kind, par, n):
        w = np.matmul(M, p)
        s = SNAP(w, "points")
        got = obj.get_world_normals(w)
        UNCHANGED("the points passed in are not changed (%s)" % face, s)
        e = np.matmul(N, nn[:3])
        e = e / np.sqrt(np.sum(e * e, axis=0))
        CHECK_EQ("normals on the %s point outward and are unit vectors" % face, got[:3], -e if how == "flipped" else e)
        CHECK_EQ("normals on the %s are vectors" % face, got[3], np.zeros(n))
        if how == "as built":
            prim = obj.primitive.normal(p)
            CHECK_EQ("object space normals on the %s" % face, prim, nn)
    if how == "as built":
        for face, p, nn in points_on(kind, par, None):
            CHECK_EQ("a single point on the %s" % face, obj.primitive.normal(p), nn)
'''


# whole numbers, lists and arrays instead of fractional numbers and tuples
SPELLED = GEO + '''
def main():
    n = LANE("n")
    many = [(lambda: cg.Sphere(2.), lambda: cg.Sphere(2)), (lambda: cg.Cylinder(2., -1., 3.), lambda: cg.Cylinder(2, -1, 3)), (lambda: cg.Cylinder(1., -1., 3.), lambda: cg.Cylinder(max_height=3, radius=1, min_height=-1)),
            (lambda: cg.Paraboloid(1., 2.), lambda: cg.Paraboloid(1, 2)), (lambda: cg.XYPlane(2., 3.), lambda: cg.XYPlane(2, 3)),
            (lambda: cg.Cuboid((-1., -2., -1.), (1., 3., 2.)), lambda: cg.Cuboid([-1, -2, -1], [1, 3, 2])), (lambda: cg.Cuboid((-1., -2., -1.), (1., 3., 2.)), lambda: cg.Cuboid(np.array([-1, -2, -1]), np.array([1, 3, 2]))),
            (lambda: cg.Cuboid.from_sides(2., 3., 5.), lambda: cg.Cuboid.from_sides(2, 3, 5)), (lambda: cg.Cuboid.from_length(3.), lambda: cg.Cuboid.from_length(3))]
    rays = np.zeros((2, 4, n))
    for i in range(3):
        rays[0, i] = LVAR("ro%d" % i, n, -4, 4)
        rays[1, i] = LVAR("rd%d" % i, n, -1, 1)
    rays[0, 3] = 1
    for f, g in many:
        a, b = f(), g()
        for placed in (0, 1):
            if placed:
                a.rotate_x(30.).move(1., 2., -1.)
                b.rotate_x(30).move(1, 2, -1)
            h, i = a.intersect(rays)
            k, j = b.intersect(rays)
            CHECK_EQ("a shape does not depend on how its parameters are written", h, k)
            # whole-number rays
            w = np.array([[[1, 0, -3], [0, 2, 0], [0, 1, 5], [1, 1, 1]], [[0, 1, 1], [1, 0, 1], [3, 2, -2], [0, 0, 0]]])
            h, i = a.intersect(w)
            k, j = a.intersect(w * 1.)
            CHECK_EQ("a ray does not depend on how it is written", h, k)
'''
