"""Harnesses about object placement: transforms, groups, compound objects, pinning."""
from .common import STUBS

PRE = STUBS + '''
def mat(rows):
    return np.array(rows)


def T_move(x, y, z):
    return np.array([[1, 0, 0, x], [0, 1, 0, y], [0, 0, 1, z], [0, 0, 0, 1.]])


def T_scale(x, y, z):
    return np.array([[x, 0, 0, 0], [0, y, 0, 0], [0, 0, z, 0], [0, 0, 0, 1.]])


def T_rot(axis, t):
    """right-handed rotation by t radians"""
    c, s = np.cos(t), np.sin(t)
    if axis == "x":
        return np.array([[1, 0, 0, 0], [0, c, -s, 0], [0, s, c, 0], [0, 0, 0, 1.]])
    if axis == "y":
        return np.array([[c, 0, s, 0], [0, 1, 0, 0], [-s, 0, c, 0], [0, 0, 0, 1.]])
    return np.array([[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.]])


def angle(name):
    return SYM(name, -400, 400, (0, 90, -90, 45, 180, 3e-4, 360, 270), 0.3)


class Op:
    """one elementary placement operation with symbolic arguments: apply(obj) and its matrix"""
    def __init__(self, kind, tag):
        self.kind = kind
        v = [SYM(tag + c, -2, 2, (0, 1, 2e-5, -3e-4, 300), 0.3) for c in "abc"]
        p = [SYM(tag + c + "+", 0.4, 2, (0.5, 1, 2, 1.0002), 0.5) for c in "abc"]
        a = angle(tag + "t")
        rad = a * np.pi / 180
        # very small and very large amounts
        e = [SYM(tag + c + "e", 0.5, 2, (1e-5, 1e-4, 4e-4, 3e-3, 50, 2000, 30000, 1e6), 0.9) for c in "abc"]
        f = SYM(tag + "f", 360, 720, (-370, 450, 1e-5, -3e-4, 0.02, 3600.5, -900, 5e4), 0.8)
        r = SYM(tag + "r", -7, 7, (0, 1e-5, 3.141592653589793), 0.2)
        table = {
            "move": (lambda o: o.move(v[0], v[1], v[2]), T_move(v[0], v[1], v[2])),
            "move_kw": (lambda o: o.move(y=v[1], x=v[0], z=v[2]), T_move(v[0], v[1], v[2])),
            "move_x": (lambda o: o.move_x(v[0]), T_move(v[0], 0, 0)),
            "move_y": (lambda o: o.move_y(v[0]), T_move(0, v[0], 0)),
            "move_z": (lambda o: o.move_z(v[0]), T_move(0, 0, v[0])),
            "scale": (lambda o: o.scale(p[0], p[1], p[2]), T_scale(p[0], p[1], p[2])),
            "scale_x": (lambda o: o.scale_x(p[0]), T_scale(p[0], 1, 1)),
            "scale_y": (lambda o: o.scale_y(p[0]), T_scale(1, p[0], 1)),
            "scale_z": (lambda o: o.scale_z(p[0]), T_scale(1, 1, p[0])),
            "scale_all": (lambda o: o.scale_all(p[0]), T_scale(p[0], p[0], p[0])),
            "scale_far": (lambda o: o.scale(e[0], e[1], e[2]), T_scale(e[0], e[1], e[2])),
            "scale_all_far": (lambda o: o.scale_all(e[0]), T_scale(e[0], e[0], e[0])),
            "move_far": (lambda o: o.move(e[0], -e[1], e[2]), T_move(e[0], -e[1], e[2])),
            "rotate_x_far": (lambda o: o.rotate_x(f), T_rot("x", f * np.pi / 180)),
            "rotate_y_far": (lambda o: o.rotate_y(f), T_rot("y", f * np.pi / 180)),
            "rotate_z_far": (lambda o: o.rotate_z(f), T_rot("z", f * np.pi / 180)),
            "rotate_z_rad_far": (lambda o: o.rotate_z(f, units="rad"), T_rot("z", f)),
            "rotate_x": (lambda o: o.rotate_x(a), T_rot("x", rad)),
            "rotate_y": (lambda o: o.rotate_y(a), T_rot("y", rad)),
            "rotate_z": (lambda o: o.rotate_z(a), T_rot("z", rad)),
            "rotate_x_rad": (lambda o: o.rotate_x(r, "rad"), T_rot("x", r)),
            "rotate_y_rad": (lambda o: o.rotate_y(r, "rad"), T_rot("y", r)),
            "rotate_z_rad": (lambda o: o.rotate_z(r, units="rad"), T_rot("z", r)),
        }
        m = affine(tag)
        table["transform"] = (lambda o: o.transform(m), m)
        # amounts so small that they are easily overlooked
        s = [SYM(tag + c + "s", 1e-4, 1e-2, (1e-6, -1e-5, -3e-3), 0.5) for c in "abc"]
        table["slight_move"] = (lambda o: o.move(s[0], s[1], s[2]), T_move(s[0], s[1], s[2]))
        table["slight_turn"] = (lambda o: o.rotate_y(s[0]), T_rot("y", s[0] * np.pi / 180))
        table["slight_scale"] = (lambda o: o.scale(1 + s[0], 1, 1 + s[1]), T_scale(1 + s[0], 1, 1 + s[1]))
        # whole numbers alone and next to fractions
        table["move_int"] = (lambda o: o.move(1, v[1], v[2]), T_move(1, v[1], v[2]))
        table["move_ints"] = (lambda o: o.move(-3, 2, 1), T_move(-3, 2, 1))
        table["move_y_int"] = (lambda o: o.move_y(4), T_move(0, 4, 0))
        table["scale_int"] = (lambda o: o.scale(2, p[1], p[2]), T_scale(2, p[1], p[2]))
        table["scale_int_last"] = (lambda o: o.scale(p[0], p[1], 3), T_scale(p[0], p[1], 3))
        table["scale_ints"] = (lambda o: o.scale(2, 3, 1), T_scale(2, 3, 1))
        table["scale_all_int"] = (lambda o: o.scale_all(2), T_scale(2, 2, 2))
        table["rotate_x_int"] = (lambda o: o.rotate_x(30), T_rot("x", np.pi / 6))
        table["rotate_z_int_rad"] = (lambda o: o.rotate_z(1, "rad"), T_rot("z", 1.))
        ints = np.array([[0, -1, 0, 2], [1, 0, 0, -3], [0, 0, 2, 1], [0, 0, 0, 1]])
        table["transform_ints"] = (lambda o: o.transform(ints), ints)
        self.apply, self.matrix = table[kind]


OPS = ["move", "move_kw", "move_x", "move_y", "move_z", "scale", "scale_x", "scale_y", "scale_z", "scale_all", "rotate_x", "rotate_y", "rotate_z",
       "rotate_x_rad", "rotate_y_rad", "rotate_z_rad", "transform"]


def affine(tag):
    """an arbitrary well conditioned affine map"""
    m = np.zeros((4, 4))
    for i in range(3):
        for j in range(3):
            m[i, j] = SYM("%sm%d%d" % (tag, i, j), 0.95, 1.65, (1, 2), 0.4) if i == j else SYM("%sm%d%d" % (tag, i, j), -0.35, 0.35, (0,), 0.3)
        m[i, 3] = SYM("%sm%d3" % (tag, i))
    m[3, 3] = 1
    return m


def objects():
    return [("world object", cg.world_objects.WorldObject()), ("sphere", cg.Sphere(1.0)), ("group", cg.ObjectGroup()),
            ("difference", cg.csg.difference(cg.Sphere(1.0), cg.Sphere(0.5))), ("camera", cg.OrthographicCamera(4, 2., 1.)),
            ("source", pyrayt.components.LineOfRays(1.0))]


def make(kind):
    for n, o in objects():
        if n == kind:
            return o


def coherent(label, o, M):
    """everything an object reports about its placement is derived from the one world transform M"""
    inv = np.linalg.inv(M)
    CHECK_EQ(label + ": world transform is the composition of the operations", o.get_world_transform(), M, rtol=1e-9, atol=1e-9)
    CHECK_EQ(label + ": object transform is the inverse of the world transform", o.get_object_transform(), inv, rtol=1e-8, atol=1e-8)
    CHECK_EQ(label + ": position is the image of the origin", o.get_position(), M[:, 3], rtol=1e-9, atol=1e-9)
    d = M[:3, 2] / np.linalg.norm(M[:3, 2])
    CHECK_EQ(label + ": orientation is the unit image of the z axis", o.get_orientation(), np.array([d[0], d[1], d[2], 0.]))
    n = LANE("pts")
    pts = np.zeros((4, n))
    for i in range(3):
        pts[i] = LVAR("pt%d" % i, n)
    pts[3] = LCHOICE("ptw", n, (0, 1))
    keep = SNAP(pts, "coordinates")
    CHECK_EQ(label + ": to_object_coordinates applies the inverse", o.to_object_coordinates(pts), np.matmul(inv, pts))
    CHECK_EQ(label + ": to_world_coordinates applies the transform", o.to_world_coordinates(pts), np.matmul(M, pts))
    CHECK_EQ(label + ": object and world coordinates round trip", o.to_world_coordinates(o.to_object_coordinates(pts)), pts)
    UNCHANGED(label + ": coordinates passed in are not changed", keep)
'''

COHERENT = PRE + '''
def main(arg):
    kind, ops = arg
    o = make(kind)
    M = np.identity(4)
    coherent("initially", o, M)
    for i, k in enumerate(ops):
        op = Op(k, "o%d" % i)
        r = op.apply(o)
        CHECK("operations return the object for chaining", SAMEOBJ(r, o))
        M = np.matmul(op.matrix, M)
        coherent("after %s" % k, o, M)
    # reported matrices are copies
    got = o.get_world_transform()
    got[0, 3] += 5
    inv = o.get_object_transform()
    inv[1, 3] += 7
    coherent("after editing reported matrices", o, M)
'''

QUAT = PRE + '''
def main(arg):
    o = cg.world_objects.WorldObject()
    M = np.identity(4)
    turned(o, M)
    for i, k in enumerate(arg):
        op = Op(k, "o%d" % i)
        op.apply(o)
        M = np.matmul(op.matrix, M)
        turned(o, M)
    got = o.get_quaternion()
    got[0] = got[0] + 3
    turned(o, M)


def turned(o, M):
    q = o.get_quaternion()
    x, y, z, w = q[0], q[1], q[2], q[3]
    R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                  [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    CHECK_EQ("the quaternion describes the rotation of the object", R, M[:3, :3])
    CHECK_EQ("the quaternion is a unit quaternion", np.sum(q * q), 1.0)
'''

BADOPS = PRE + '''
def main():
    for kind in ("world object", "sphere", "difference", "group"):
        o = make(kind)
        x = SYM("neg", -2, -0.1)
        x2, x3, ok = SYM("neg2", -2, -0.1), SYM("neg3", -2, -0.1), SYM("pos", 0.5, 2)
        for nm, f in (("xy", lambda: o.scale(x, x2, ok)), ("xz", lambda: o.scale(x, ok, x2)), ("yz", lambda: o.scale(ok, x, x2)), ("xyz", lambda: o.scale(x, x2, x3)),
                      ("whole numbers", lambda: o.scale(-1, -2, 1)), ("whole and zero", lambda: o.scale(0, -2, 1)), ("two zeros", lambda: o.scale(0, 0, ok)),
                      ("zero and negative", lambda: o.scale(0, x, ok)), ("two negative and zero", lambda: o.scale(x, x2, 0))):
            s = SNAP(o, "object")
            e = RAISES(f)
            CHECK("scale factors that are not all positive are refused (%s, %s)" % (kind, nm), e == "ValueError" or e == "LinAlgError")
            UNCHANGED("refused scale factors leave the object as it was (%s, %s)" % (kind, nm), s)
        for nm, f in (("x", lambda: o.scale(x, 1, 1)), ("y", lambda: o.scale(1, x, 1)), ("z", lambda: o.scale(1, 1, x)), ("scale_x", lambda: o.scale_x(x)),
                      ("scale_y", lambda: o.scale_y(x)), ("scale_z", lambda: o.scale_z(x)), ("all", lambda: o.scale_all(x))):
            s = SNAP(o, "object")
            e = RAISES(f)
            CHECK("a negative scale factor is refused (%s, %s)" % (kind, nm), e == "ValueError")
            UNCHANGED("a refused scale leaves the object as it was (%s, %s)" % (kind, nm), s)
        y = SYM("pos", 0.5, 2)
        for nm, f in (("x", lambda: o.scale(0, y, 1)), ("y", lambda: o.scale(y, 0, 1)), ("z", lambda: o.scale(1, y, 0)), ("scale_x", lambda: o.scale_x(0)),
                      ("scale_y", lambda: o.scale_y(0.0)), ("scale_z", lambda: o.scale_z(0)), ("all", lambda: o.scale_all(0))):
            s = SNAP(o, "object")
            e = RAISES(f)
            CHECK("a scale factor of zero is refused (%s, %s)" % (kind, nm), e == "ValueError" or e == "LinAlgError")
            UNCHANGED("a refused zero scale leaves the object as it was (%s, %s)" % (kind, nm), s)
        for nm, m in (("flat", np.diag((1, y, 0, 1))), ("3x3", np.identity(3)), ("vector", np.ones(3)), ("zero", np.zeros((4, 4)))):
            s = SNAP(o, "object")
            e = RAISES(lambda: o.transform(m))
            CHECK("a malformed transform is refused (%s, %s)" % (kind, nm), e == "ValueError" or e == "LinAlgError")
            UNCHANGED("a refused transform leaves the object as it was (%s, %s)" % (kind, nm), s)
        for nm, f in (("x", lambda: o.rotate_x(10, "grad")), ("y", lambda: o.rotate_y(10, "grad")), ("z", lambda: o.rotate_z(10, units="turns"))):
            s = SNAP(o, "object")
            e = RAISES(f)
            CHECK("an unknown angle unit is refused (%s, %s)" % (kind, nm), e == "ValueError")
            UNCHANGED("a refused rotation leaves the object as it was (%s, %s)" % (kind, nm), s)
'''

# ---------------------------------------------------------------- compound objects
NESTED = PRE + '''
def tree(which):
    """-> (root, leaves): compound objects nested at several depths"""
    mk = lambda i: cg.Sphere(1.0).move(0.25 * i, 0.125 * i, -0.5 * i)
    if which == "csg":
        a, b = mk(0), mk(1)
        return cg.csg.union(a, b), [a, b]
    if which == "csg-of-csg":
        a, b, c = mk(0), mk(1), mk(2)
        return cg.csg.difference(cg.csg.intersect(a, b), c), [a, b, c]
    if which == "csg-right":
        a, b, c = mk(0), mk(1), mk(2)
        return cg.csg.union(a, cg.csg.union(b, c)), [a, b, c]
    if which == "group":
        a, b = mk(0), mk(1)
        return cg.ObjectGroup([a, b]), [a, b]
    if which == "group-append":
        a, b, c = mk(0), mk(1), mk(2)
        g = cg.ObjectGroup()
        g.append(a)
        g.extend([b])
        g.insert(0, c)
        return g, [a, b, c]
    if which == "group-of-groups":
        a, b, c = mk(0), mk(1), mk(2)
        return cg.ObjectGroup([cg.ObjectGroup([a, b]), c]), [a, b, c]
    if which == "group-of-csg":
        a, b, c = mk(0), mk(1), mk(2)
        return cg.ObjectGroup([cg.csg.difference(a, b), c]), [a, b, c]
    if which == "shared":
        a, b, c = mk(0), mk(1), mk(2)
        u = cg.csg.union(a, b)
        v, w = cg.csg.union(c, b), cg.csg.difference(a, c)
        return u, [a, b]
    if which == "group shared":
        a, b, c = mk(0), mk(1), mk(2)
        g = cg.ObjectGroup([a, b])
        u, h = cg.csg.union(c, a), cg.ObjectGroup([b])
        return g, [a, b]
    if which == "two halves":
        a, b, c, d = mk(0), mk(1), mk(2), mk(3)
        return cg.csg.intersect(cg.csg.union(a, b), cg.csg.difference(c, d)), [a, b, c, d]
    if which == "same kinds":
        a, b, c, d = mk(0), mk(1), mk(2), mk(3)
        return cg.ObjectGroup([cg.csg.union(a, b), cg.csg.union(c, d)]), [a, b, c, d]
    if which == "groups alike":
        a, b, c, d = mk(0), mk(1), mk(2), cg.Cuboid().move_x(2.)
        return cg.ObjectGroup([cg.ObjectGroup([a]), cg.ObjectGroup([b, d]), cg.ObjectGroup(), c]), [a, b, c, d]
    if which == "mixed":
        a, b, c, d = cg.Cylinder(1., -2., 1.), cg.Cuboid((-1., -1., -1.), (1., 2., 1.)), cg.XYPlane(1., 2.), cg.Paraboloid(1., 2.)
        return cg.ObjectGroup([a, cg.csg.difference(b, d), c]), [a, b, c, d]
    if which == "three levels":
        a, b, c, d = mk(0), mk(1), mk(2), mk(3)
        return cg.csg.union(cg.csg.union(cg.csg.union(a, b), c), d), [a, b, c, d]
    many = [mk(i) for i in range(12)]
    if which == "crowd":
        g = cg.ObjectGroup(many[:10])
        g.extend(many[10:])
        return g, many
    if which == "deep":
        x = many[0]
        for i in range(1, 8):
            x = cg.csg.union(x, many[i]) if i % 3 else cg.csg.difference(many[i], x)
        return cg.ObjectGroup([cg.ObjectGroup([cg.ObjectGroup([x])]), many[8]]), many[:9]


TREES = ["csg", "csg-of-csg", "csg-right", "group", "group-append", "group-of-groups", "group-of-csg", "three levels", "shared", "group shared", "two halves", "same kinds", "groups alike", "mixed", "crowd", "deep"]


def main(arg):
    which, ops = arg
    root, leaves = tree(which)
    before = [l.get_world_transform() for l in leaves]
    rm = root.get_world_transform()
    M = np.identity(4)
    for i, k in enumerate(ops):
        op = Op(k, "o%d" % i)
        CHECK("operations on a compound object return it", SAMEOBJ(op.apply(root), root))
        M = np.matmul(op.matrix, M)
        for j, (l, b) in enumerate(zip(leaves, before)):
            CHECK_EQ("every member moves rigidly with the compound (%s, member %d)" % (k, j), l.get_world_transform(), np.matmul(M, b))
            CHECK_EQ("member inverse transforms follow (%s, member %d)" % (k, j), l.get_object_transform(), np.linalg.inv(np.matmul(M, b)))
        CHECK_EQ("the compound's own transform follows (%s)" % k, root.get_world_transform(), np.matmul(M, rm))
    # moving one member alone moves nothing else, whichever it is
    for k in (0, len(leaves) - 1):
        at = [l.get_world_transform() for l in leaves]
        Op("transform", "alone%d" % k).apply(leaves[k])
        for j, (l, b) in enumerate(zip(leaves, at)):
            if j != k:
                CHECK_EQ("moving one member leaves the others (member %d, moved %d)" % (j, k), l.get_world_transform(), b)
        CHECK_EQ("moving one member leaves the compound's transform", root.get_world_transform(), np.matmul(M, rm))
    # and from then on it moves along from where it was put
    at = [l.get_world_transform() for l in leaves]
    for i, k in enumerate(["rotate_y", "move"]):
        op = Op(k, "after%d" % i)
        op.apply(root)
        M = np.matmul(op.matrix, M)
        at = [np.matmul(op.matrix, b) for b in at]
        for j, (l, b) in enumerate(zip(leaves, at)):
            CHECK_EQ("members moved on their own move along with the compound again (%s, member %d)" % (k, j), l.get_world_transform(), b)
        CHECK_EQ("the compound's own transform follows after its members moved (%s)" % k, root.get_world_transform(), np.matmul(M, rm))
'''
TREES = ["csg", "csg-of-csg", "csg-right", "group", "group-append", "group-of-groups", "group-of-csg", "three levels", "shared", "group shared", "two halves", "same kinds", "groups alike", "mixed", "crowd", "deep"]

PIN = PRE + '''
class Boom(Exception):
    pass


def main(arg):
    which, ops, how = arg
    if which == "sphere":
        o = cg.Sphere(1.0).move(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3), 1, 2).rotate_x(30)
        objs, watch = [o], [o]
    elif which == "two":
        o, p = cg.Sphere(1.0).move(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3), 1, 2), cg.Cylinder(1.0).rotate_y(angle("qa"))
        objs, watch = [o, p], [o, p]
    elif which == "csg":
        a, b = cg.Sphere(1.0).move_x(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3)), cg.Sphere(0.7)
        o = cg.csg.difference(a, b).rotate_z(20)
        objs, watch = [o], [o, a, b]
    elif which == "group":
        a, b = cg.Sphere(1.0).move_x(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3)), cg.Sphere(0.7)
        o = cg.ObjectGroup([a, b]).rotate_z(20)
        objs, watch = [o], [o, a, b]
    elif which == "lens":
        o = pyrayt.components.biconvex_lens(5., 5., 0.3, aperture=1.0)
        objs, watch = [o], [o]
    elif which == "member then compound":
        a, b = cg.Sphere(1.0).move_x(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3)), cg.Sphere(0.7)
        o = cg.csg.union(a, b)
        objs, watch = [a, o], [a, b, o]
    elif which == "compound then member":
        a, b = cg.Sphere(1.0).move_x(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3)), cg.Sphere(0.7)
        o = cg.csg.union(a, b)
        objs, watch = [o, a], [a, b, o]
    elif which == "source":
        o = pyrayt.components.LineOfRays(1.0).move_y(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3))
        objs, watch = [o], [o]
    elif which == "named twice":
        o, p = cg.Sphere(1.0).move(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3), 1, 2), cg.Cylinder(1.0).rotate_y(angle("qa"))
        objs, watch = [o, o, p], [o, p]
    elif which == "levels":
        a, b, c = cg.Sphere(1.0).move_x(SYM("qx", -2, 2, (1000, -30000, 1e-4), 0.3)), cg.Sphere(0.7), cg.Cuboid((-1., -1., -1.), (1., 2., 1.))
        u = cg.csg.union(a, b)
        o = cg.ObjectGroup([u, c])
        objs, watch = [b, o, u], [a, b, c, u, o]
    before = [w.get_world_transform() for w in watch]
    if how == "nested":
        with pyrayt.pin(*objs):
            Op("move", "first").apply(objs[-1])
            inside = [w.get_world_transform() for w in watch]
            with pyrayt.pin(*objs):
                Op("transform", "second").apply(objs[0])
            for i, (w, b) in enumerate(zip(watch, inside)):
                CHECK_EQ("an inner scope restores the placement at its entry (object %d)" % i, w.get_world_transform(), b, rtol=1e-9, atol=1e-9)
        for i, (w, b) in enumerate(zip(watch, before)):
            CHECK_EQ("an outer scope restores the placement at its entry (object %d)" % i, w.get_world_transform(), b, rtol=1e-9, atol=1e-9)
    try:
        with pyrayt.pin(*objs):
            for i, k in enumerate(ops):
                Op(k, "o%d" % i).apply(objs[-1])
                if len(objs) > 1 and how == "all":
                    Op(k, "p%d" % i).apply(objs[0])
            if how == "raise":
                raise Boom()
        CHECK("errors raised inside the context reach the caller", how != "raise")
    except Boom:
        CHECK("errors raised inside the context reach the caller", how == "raise")
    for i, (w, b) in enumerate(zip(watch, before)):
        CHECK_EQ("the placement at entry is restored (object %d)" % i, w.get_world_transform(), b, rtol=1e-9, atol=1e-9)
        CHECK_EQ("the inverse transform is restored (object %d)" % i, w.get_object_transform(), np.linalg.inv(b), rtol=1e-9, atol=1e-9)
'''
