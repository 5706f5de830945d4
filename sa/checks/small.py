"""Harnesses about queries, vectors, polynomial roots, outlines and surface identities."""
from .geometry import GEO

BASE = GEO + '''
SHAPES = {
    "sphere": lambda m: cg.Sphere(1.25, material=m),
    "cylinder": lambda m: cg.Cylinder(0.75, -0.5, 1.5, material=m),
    "paraboloid": lambda m: cg.Paraboloid(0.5, 2., material=m),
    "plane": lambda m: cg.XYPlane(2., 3., material=m),
    "cuboid": lambda m: cg.Cuboid((-1., -0.5, -2.), (0.5, 1., 1.), material=m),
    "difference": lambda m: cg.csg.difference(cg.Sphere(1.5, material=m), cg.Cuboid((-1., -0.5, -2.), (0.5, 1., 1.), material=m)),
    "union": lambda m: cg.csg.union(cg.csg.intersect(cg.Sphere(1.5, material=m), cg.Sphere(1., material=m).move_x(0.75)), cg.Cylinder(0.3, -1., 1., material=m)),
}


def rays4(tag, n):
    r = np.zeros((2, 4, n))
    for i, a in enumerate("xyz"):
        r[0, i] = LVAR(tag + "o" + a, n, -2, 2)
        r[1, i] = LVAR(tag + "d" + a, n, -1, 1)
    r[0, 3] = 1
    return r
'''

# what an object answers is the caller's own: neither editing an answer nor a question ever changes the object
QUERIES = BASE + '''
def answers(o):
    out = [("position", lambda: o.get_position()), ("orientation", lambda: o.get_orientation()), ("world transform", lambda: o.get_world_transform()),
           ("object transform", lambda: o.get_object_transform())]
    return out


def main(kind):
    m = Mat("m")
    if kind == "world object":
        o = cg.world_objects.WorldObject()
    elif kind == "group":
        o = cg.ObjectGroup([cg.Sphere(1.0)])
    elif kind == "camera":
        o = cg.OrthographicCamera(3, 2., 0.7)
    elif kind == "source":
        o = pyrayt.components.LineOfRays(2.)
    else:
        o = SHAPES[kind](m)
    for placed in (0, 1):
        if placed:
            A = affine("A")
            sA = SNAP(A, "matrix")
            o.transform(A)
            UNCHANGED("a transform leaves the matrix it was given alone", sA)
            before = [f() for n, f in answers(o)]
            A[0, 3] = A[0, 3] + 5
            A[1, 1] = 9
            for (n, f), b in zip(answers(o), before):
                CHECK_EQ("editing a matrix after using it does not move the object (%s)" % n, f(), b)
        sn = SNAP(o, kind)
        for n, f in answers(o):
            a = f()
            b = f()
            c = f()
            a[0] = a[0] + 3
            a[:] = 7
            CHECK("two answers are independent (%s)" % n, not SHARES(b, a))
            CHECK_EQ("an answer is not affected by editing an earlier one (%s)" % n, b, c)
            CHECK_EQ("later answers are not affected by editing an earlier one (%s)" % n, f(), c)
        UNCHANGED("asking and editing the answers does not change the object", sn)
        o.get_position()[0] = 4
        B = affine("B")
        old = o.get_world_transform()
        o.get_world_transform()[0] = 11
        o.transform(B)
        CHECK_EQ("a later transform starts from the true pose", o.get_world_transform(), np.matmul(B, old))
        CHECK_EQ("the position is that of the true pose", o.get_position(), np.matmul(np.matmul(B, old), np.array([0, 0, 0, 1.])))
        p = np.ones((4, 2))
        for i in range(3):
            p[i, 0] = SYM("p%d" % i)
            p[i, 1] = SYM("q%d" % i)
        sp = SNAP(p, "points")
        w = o.to_world_coordinates(p)
        CHECK_EQ("points are mapped back and forth", o.to_object_coordinates(w), p)
        o.to_object_coordinates(p)[0] = 5
        UNCHANGED("coordinate conversion leaves its argument alone", sp)
'''

# geometric queries of a shape leave their arguments alone
ASKED = BASE + '''
def main(kind):
    m = Mat("m")
    o = SHAPES[kind](m)
    o.transform(affine("A"))
    n = LANE("n")
    r = rays4("r", n)
    sr = SNAP(r, "rays")
    so = SNAP(o, kind)
    h, s = o.intersect(r)
    UNCHANGED("intersecting leaves the rays alone", sr)
    UNCHANGED("intersecting leaves the object alone", so)
    h1, s1 = o.intersect(r)
    CHECK("answers are independent of the rays", not SHARES(h, r))
    CHECK("answers are independent of each other", not SHARES(h, h1))
    h = h + 0
    hh, s2 = o.intersect(r)
    hh[0] = -3
    s2[0] = 77
    h3, s3 = o.intersect(r)
    CHECK_EQ("later hits are not affected by editing an earlier answer", h3, h1)
    CHECK_EQ("later ids are not affected by editing an earlier answer", s3, s1)
    UNCHANGED("editing an answer does not change the object", so)
    for i, surf in o.surface_ids:
        p = np.ones((4, n))
        for k, a in enumerate("xyz"):
            p[k] = LVAR("p" + a, n, -2, 2)
        sp = SNAP(p, "positions")
        ss = SNAP(surf, "surface")
        g = surf.get_world_normals(p)
        UNCHANGED("asking for normals leaves the positions alone", sp)
        UNCHANGED("asking for normals leaves the surface alone", ss)
        CHECK("normals are the caller's own", not SHARES(g, p))
        g2 = surf.get_world_normals(p) + 0
        surf.get_world_normals(p)[0] = 5
        CHECK_EQ("normals are not affected by editing earlier ones", surf.get_world_normals(p), g2)
        # the same for the shape in its own space
        g = surf.primitive.normal(p)
        UNCHANGED("asking a shape for normals leaves the positions alone", sp)
        UNCHANGED("asking a shape for normals leaves the surface alone", ss)
        CHECK("normals of a shape are the caller's own", not SHARES(g, p))
        g2 = surf.primitive.normal(p) + 0
        surf.primitive.normal(p)[0] = 5
        CHECK_EQ("normals of a shape are not affected by editing earlier ones", surf.primitive.normal(p), g2)
        h = surf.primitive.intersect(r)
        UNCHANGED("intersecting a shape leaves the rays alone", sr)
        UNCHANGED("intersecting a shape leaves the surface alone", ss)
        h2 = surf.primitive.intersect(r) + 0
        surf.primitive.intersect(r)[0] = -3
        CHECK_EQ("hits of a shape are not affected by editing earlier ones", surf.primitive.intersect(r), h2)
        q = np.ones(4)
        for k, a in enumerate("xyz"):
            q[k] = SYM("q" + a, -2, 2)
        sq = SNAP(q, "position")
        surf.primitive.normal(q)
        UNCHANGED("asking for the normal at one point leaves it alone", sq)
    # a single ray is the same question as a set of one
    one = np.zeros((2, 4))
    for i, a in enumerate("xyz"):
        one[0, i] = SYM("1o" + a, -2, 2)
        one[1, i] = SYM("1d" + a, -1, 1)
    one[0, 3] = 1
    s1 = SNAP(one, "single ray")
    a, ia = o.intersect(one)
    UNCHANGED("intersecting leaves a single ray alone", s1)
    b, ib = o.intersect(one.reshape(2, 4, 1))
    CHECK_EQ("a single ray has the hits of a set of one", np.ravel(a), np.ravel(b))
    CHECK_EQ("a single ray has the ids of a set of one", np.ravel(ia), np.ravel(ib))
'''

# parameters passed to constructors are copied or never written
BUILT = BASE + '''
def main():
    lo, hi = np.array([-1., -2., -0.5]), np.array([1., 0.5, 2.])
    for i in range(3):
        lo[i] = SYM("lo%d" % i, -3, -1)
        hi[i] = SYM("hi%d" % i, 1, 3)
    sl = SNAP([lo, hi], "corners")
    c = cg.Cuboid(lo, hi)
    d = cg.Cuboid(hi, lo)
    n = LANE("n")
    r = rays4("r", n)
    h1, s1 = c.intersect(r)
    UNCHANGED("building a cuboid leaves the corners alone", sl)
    lo[0] = lo[0] + 0.5
    hi[2] = 9
    h2, s2 = c.intersect(r)
    CHECK_EQ("editing the corners afterwards does not change the cuboid", h2, h1)
    h3, s3 = d.intersect(r)
    CHECK_EQ("the order of the corners does not matter", h3, h1)
    comps = [cg.Sphere(1.0), cg.Sphere(2.0)]
    g = cg.ObjectGroup(comps)
    comps.append(cg.Sphere(3.0))
    CHECK_EQ("a group has the members it was built with", np.array(len(g)), 2)
    g.append(comps[2])
    CHECK_EQ("a group's members are its own", np.array(len(comps)), 3)
    g.move(x=SYM("mx"))
    CHECK_EQ("members joined later move with the group", comps[2].get_position()[0], SYM("mx"))
'''

COORDS = BASE + '''
def main():
    v = [SYM("x"), SYM("y"), SYM("z")]
    u = [SYM("a"), SYM("b"), SYM("c")]
    for name, cls, w in (("point", cg.Point, 1.), ("vector", cg.Vector, 0.)):
        p = cls(v[0], v[1], v[2])
        CHECK_EQ("%s coordinates" % name, np.array([p[0], p[1], p[2], p[3]]), np.array(v + [w]))
        CHECK_EQ("%s fields" % name, np.array([p.x, p.y, p.z, p.w]), np.array(v + [w]))
        q = cls()
        CHECK_EQ("default %s" % name, np.array([q.x, q.y, q.z, q.w]), np.array([0, 0, 0, w]))
        CHECK_EQ("%s by name" % name, np.asarray(cls(z=v[2], x=v[0])), np.array([v[0], 0, v[2], w]))
        p.x = u[0]
        CHECK_EQ("writing x of a %s changes only x" % name, np.asarray(p), np.array([u[0], v[1], v[2], w]))
        p.y = u[1]
        CHECK_EQ("writing y of a %s changes only y" % name, np.asarray(p), np.array([u[0], u[1], v[2], w]))
        p.z = u[2]
        CHECK_EQ("writing z of a %s changes only z" % name, np.asarray(p), np.array([u[0], u[1], u[2], w]))
        p.w = v[0]
        CHECK_EQ("writing w of a %s changes only w" % name, np.asarray(p), np.array([u[0], u[1], u[2], v[0]]))
        CHECK_EQ("a new %s is not affected by an earlier one" % name, np.asarray(cls()), np.array([0, 0, 0, w]))
        k = SYM("long", 0.5, 1, (1e-6, 1e-4, 1e-3, 0.02, 100, 3e5), 0.7)
        s = cls(v[0] * k, v[1] * k, SYM("z+", 0.5, 3) * k)
        r = np.sqrt(v[0] * v[0] + v[1] * v[1] + SYM("z+", 0.5, 3) * SYM("z+", 0.5, 3))
        t = s.normalize()
        CHECK_EQ("a normalized %s has unit length in the same direction" % name, np.asarray(t), np.array([v[0] / r, v[1] / r, SYM("z+", 0.5, 3) / r, w]))
        CHECK_EQ("normalizing a %s is in place" % name, np.asarray(s), np.asarray(t))
    o, d = cg.Point(v[0], v[1], v[2]), cg.Vector(u[0], u[1], u[2])
    so = SNAP([o, d], "parts")
    ray = cg.Ray(o, d)
    CHECK_EQ("a ray has its origin and direction", np.asarray(ray), np.array([v + [1.], u + [0.]]))
    CHECK_EQ("ray origin", np.asarray(ray.origin), np.asarray(o))
    CHECK_EQ("ray direction", np.asarray(ray.direction), np.asarray(d))
    ray.origin.x = u[1]
    ray.direction.normalize()
    UNCHANGED("a ray does not share its parts with the arguments", so)
    CHECK_EQ("editing the origin edits the ray", ray[0, 0], u[1])
    ray.direction = d
    ray.origin = o
    CHECK_EQ("assigning the parts of a ray", np.asarray(ray), np.array([v + [1.], u + [0.]]))
    e = cg.Ray()
    CHECK_EQ("default ray", np.asarray(e), np.array([[0, 0, 0, 1.], [1., 0, 0, 0]]))
    e.origin.x = 5
    e.direction.y = 2
    CHECK_EQ("a default ray is not affected by an earlier one", np.asarray(cg.Ray()), np.array([[0, 0, 0, 1.], [1., 0, 0, 0]]))
    n = LANE("n")
    b = cg.bundle_of_rays(n)
    CHECK_EQ("bundle size", np.array(b.shape[:2]), np.array([2, 4]))
    CHECK_EQ("bundle width", b.shape[2], n)
    CHECK_EQ("bundles start at the origin", b[0], np.zeros((4, n)) + np.array([[0], [0], [0], [1.]]))
    CHECK_EQ("bundles have no direction yet", b[1], np.zeros((4, n)))
    f = cg.primitives.bundle_rays([cg.Ray(o, d), cg.Ray(d, o)])
    CHECK_EQ("joined rays keep their order and parts", f, np.stack((np.stack((o, d)), np.stack((d, o))), axis=-1))
'''

ALGEBRA = BASE + '''
def main(arg):
    what = arg
    n = LANE("n")
    a, b, c = LVAR("a", n, 0.2, 3, (40, 0.01), 0.1), LVAR("b", n, -3, 3, (300, -80), 0.1), LVAR("c", n, -3, 3, (1000, -200), 0.1)
    if what in ("roots", "negative", "given"):
        if what == "negative":
            a = -a
        sn = SNAP([a, b, c], "coefficients")
        disc = b * b - 4 * a * c
        if what == "given":
            sd = SNAP(disc, "discriminant")
            r = cg.binomial_root(a, b, c, disc=disc)
            UNCHANGED("finding roots leaves the discriminant alone", sd)
        else:
            r = cg.binomial_root(a, b, c)
        UNCHANGED("finding roots leaves the coefficients alone", sn)
        real = disc >= 0
        s = np.sqrt(np.maximum(disc, 0))
        CHECK_EQ("first root", r[0], np.where(real, (-b + s) / (2 * a), np.inf))
        CHECK_EQ("second root", r[1], np.where(real, (-b - s) / (2 * a), np.inf))
        for k in (0, 1):
            x = np.where(real, r[k], 0)
            CHECK_EQ("a root solves the equation (%d)" % k, np.where(real, a * x * x + b * x + c, 0), 0 * a, atol=1e-7)
    elif what == "linear":
        b = np.where(np.abs(b) < 0.1, 0.1, b)
        r = cg.binomial_root(0 * a, b, c)
        for k in (0, 1):
            CHECK_EQ("the only root of a linear equation (%d)" % k, r[k], -c / b)
    elif what == "constant":
        r = cg.binomial_root(0 * a, 0 * b, c)
        CHECK_EQ("a constant that is never positive holds everywhere", r[0], np.where(c <= 0, -np.inf, np.inf))
        CHECK_EQ("a constant equation ends at infinity", r[1], np.full(1, np.inf) + 0 * c)
    elif what == "positive":
        sn = SNAP([a, b, c], "coefficients")
        r = cg.smallest_positive_root(a, b, c)
        UNCHANGED("finding roots leaves the coefficients alone", sn)
        disc = b * b - 4 * a * c
        s = np.sqrt(np.maximum(disc, 0))
        lo, hi = (-b - s) / (2 * a), (-b + s) / (2 * a)
        want = np.where(disc >= 0, np.where(lo >= 0, lo, np.where(hi >= 0, hi, np.inf)), np.inf)
        CHECK_EQ("smallest root that is not negative", r, want)
    elif what == "dot":
        m1, m2 = np.zeros((3, n)), np.zeros((3, n))
        for i in range(3):
            m1[i] = LVAR("u%d" % i, n)
            m2[i] = LVAR("v%d" % i, n)
        sn = SNAP([m1, m2], "factors")
        CHECK_EQ("dot product of columns", cg.element_wise_dot(m1, m2), m1[0] * m2[0] + m1[1] * m2[1] + m1[2] * m2[2])
        CHECK_EQ("dot product of columns (axis 0)", cg.element_wise_dot(m1, m2, axis=0), m1[0] * m2[0] + m1[1] * m2[1] + m1[2] * m2[2])
        CHECK_EQ("dot product of rows (axis 1)", cg.element_wise_dot(m1.T, m2.T, axis=1), m1[0] * m2[0] + m1[1] * m2[1] + m1[2] * m2[2])
        UNCHANGED("a dot product leaves its factors alone", sn)
        x, y = np.zeros(3), np.zeros(3)
        for i in range(3):
            x[i] = SYM("x%d" % i)
            y[i] = SYM("y%d" % i)
        CHECK_EQ("dot product of two vectors", cg.element_wise_dot(x, y), x[0] * y[0] + x[1] * y[1] + x[2] * y[2])
'''

# the part of each of two lists of numbers that lies within the range of the other
OVERLAP = BASE + '''
def main(arg):
    na, nb = arg
    a = np.array([SYM("a%d" % i, -3, 3) for i in range(na)])
    b = np.array([SYM("b%d" % i, -3, 3) for i in range(nb)])
    sn = SNAP([a, b], "lists")
    ra, rb = prims.overlap(a, b)
    UNCHANGED("the lists passed in are not changed", sn)
    lo, hi = np.maximum(np.min(a), np.min(b)), np.minimum(np.max(a), np.max(b))
    for nm, x, r in (("first", a, ra), ("second", b, rb)):
        CHECK_EQ("the values of the %s list within the common range, in order" % nm, r, x[AND(x >= lo, x <= hi)])
'''

OUTLINES = BASE + '''
def main(arg):
    kind, single = arg
    n = LANE("n")
    p = np.zeros(2) if single else np.zeros((2, n))
    for i, a in enumerate("xy"):
        p[i] = SYM("p" + a, -2, 2) if single else LVAR("p" + a, n, -2, 2)
    sn = SNAP(p, "points")
    if kind in ("disk", "diameter"):
        r = SYM("r", 0.5, 2)
        d = cg.primitives.Disk(r) if kind == "disk" else cg.primitives.Disk.from_diameter(2 * r)
        want = p[0] * p[0] + p[1] * p[1] - r * r
        got = d.point_in_shape(p)
    elif kind == "default disk":
        want = p[0] * p[0] + p[1] * p[1] - 1
        got = cg.primitives.Disk().point_in_shape(p)
    else:
        x, y = (SYM("x", 0.5, 4), SYM("y", 0.5, 4)) if kind == "rectangle" else (2, 2)
        s = cg.primitives.Rectangle(x, y) if kind == "rectangle" else cg.primitives.Rectangle()
        want = np.maximum(np.abs(p[0]) - x / 2, np.abs(p[1]) - y / 2)
        got = s.point_in_shape(p)
    UNCHANGED("asking leaves the points alone", sn)
    clear = np.abs(want) > 1e-6
    CHECK_EQ("a point is in the outline exactly if it lies within it", np.where(got, 1., 0.), np.where(want <= 0, 1., 0.), where=clear)
'''

# surface identities
IDS = BASE + '''
def main(kind):
    m = Mat("m")
    if kind == "late":
        LONG_SESSION(70000)
        kind = "trees"
    shapes = [SHAPES[k](m) for k in ("sphere", "cylinder", "paraboloid", "plane", "cuboid")]
    deep = SHAPES["sphere"](m)
    inner = [i for i, s in deep.surface_ids]
    for k in ("cylinder", "cuboid", "paraboloid", "sphere", "union", "cuboid", "difference"):
        more = SHAPES[k](m)
        inner += [i for i, s in more.surface_ids]
        deep = cg.csg.union(deep, more) if k != "cuboid" else cg.csg.difference(more, deep)
    CHECK("a compound lists the surfaces of all its members", sorted([i for i, s in deep.surface_ids]) == sorted(inner))
    if kind == "shapes":
        objs = shapes
    elif kind == "trees":
        objs = [cg.csg.union(cg.csg.difference(shapes[0], shapes[1]), shapes[2]), cg.csg.intersect(shapes[3], shapes[4]), SHAPES["union"](m), SHAPES["difference"](m)]
    elif kind == "deep":
        objs = [deep]
    elif kind == "parts":
        c = pyrayt.components
        objs = [c.biconvex_lens(5., 6., 1.), c.biconvex_lens(5., 6., 1.), c.plane_mirror(0.5), c.spherical_mirror(9., 0.5), c.baffle((2., 3.)), c.baffle((2., 3.)),
                c.aperture((2., 3.), (1., 1.)), c.equilateral_prism(2., 3.), cg.Sphere(1.0)]
    seen = []
    for o in objs:
        ids = o.surface_ids
        CHECK("a component has surfaces", len(ids) > 0)
        for i, s in ids:
            CHECK("a surface is listed under its own id", bool(i == s.get_id()))
            for j, other in seen:
                CHECK("no two surfaces share an id", bool(i != j))
                CHECK("no surface belongs to two components", not SAMEOBJ(s, other))
            seen.append((i, s))
    for o in shapes if kind == "shapes" else [objs[4], objs[5], objs[8]] if kind == "parts" else []:
        CHECK("a component of a single surface has the id of its surface", [i for i, s in o.surface_ids] == [o.get_id()])
    # poses and inversions keep the identities
    n = LANE("n")
    for o in objs:
        before = [i for i, s in o.surface_ids]
        o.move(1., 2., 3.)
        o.invert_normals()
        CHECK("a component keeps its surface ids when placed or inverted", [i for i, s in o.surface_ids] == before)
        if kind not in ("parts", "deep"):
            h, s = o.intersect(rays4("r", n))
            CHECK_EQ("every hit has an id", np.array(h.shape[:1]), np.array(s.shape[:1]))
            ok = 0
            for i in before:
                ok = np.where(s == i, 1, ok)
            CHECK("hits carry only ids of the component's own surfaces", OR(ok == 1, NOT(np.isfinite(h))))
'''
