"""Harnesses about ray sources and ray sets."""
from .world import PRE

SRC = PRE + '''
comp = pyrayt.components


def opening(kind):
    """how far the rays of a source fan out: a cone may open backwards, a fan may go beyond the half plane"""
    return SYM("ang", 1, 60, (0, 0.01, 75, 89, 100, 150) if kind == "cone" else (0, 0.01, 75, 120, 200, 330), 0.25)


def mk(kind, w=None):
    kw = {} if w is None else {"wavelength": w}
    p = SYM("par", 0.2, 3, (0, 1e-3, 500), 0.2)
    if kind == "line":
        return comp.LineOfRays(p, **kw)
    if kind == "circle":
        return comp.CircleOfRays(p, **kw)
    if kind == "cone":
        return comp.ConeOfRays(opening(kind), **kw)
    if kind == "wedge":
        return comp.WedgeOfRays(opening(kind), **kw)
    if kind == "half space":
        return comp.Lamp(width=p, length=SYM("par2", 0.2, 3, (1e-3, 500), 0.2), **kw)
    if kind == "lamp":
        return comp.Lamp(p, SYM("par2", 0.2, 3, (1e-3, 500), 0.2), SYM("ang", 1, 90, (0.01, 90), 0.2), **kw)
    return comp.StaticLamp(p, SYM("par2", 0.2, 3, (1e-3, 500), 0.2), SYM("ang", 1, 90, (0.01, 90), 0.2), **kw)


def local(kind, n):
    """the pattern of an unplaced source -> positions, directions"""
    p = SYM("par", 0.2, 3, (0, 1e-3, 500), 0.2)
    a = opening(kind) * np.pi / 180 if kind in ("cone", "wedge") else 0
    k = np.arange(n)
    frac = k / np.where(n > 1, n - 1, 1)
    x, o = np.zeros(n), np.ones(n)
    if kind == "line":
        return [x, np.where(n > 1, p * (frac - 0.5), 0), x], [o, x, x]
    if kind == "circle":
        t = 2 * np.pi * k / n
        return [x, p / 2 * np.sin(t), p / 2 * np.cos(t)], [o, x, x]
    if kind == "cone":
        t = 2 * np.pi * k / n
        s = np.where(n > 1, np.sin(a), 0)
        return [x, x, x], [np.where(n > 1, np.cos(a), 1), s * np.sin(t), s * np.cos(t)]
    if kind == "wedge":
        t = -a / 2 + a * frac
        return [x, x, x], [np.cos(t), np.sin(t), x]


def hom(v, w, n):
    m = np.zeros((4, n))
    for i in range(3):
        m[i] = v[i]
    m[3] = w
    return m


def place(s):
    """arbitrary placement -> its matrix"""
    m = affine("P")
    s.transform(m)
    return m


def meta(label, rs, n, wl):
    CHECK_EQ(label + ": number of rays", rs.n_rays, n)
    CHECK_EQ(label + ": wavelength", rs.wavelength, wl + np.zeros(n))
    CHECK_EQ(label + ": rays start in the surrounding medium", rs.index, np.ones(n))
    CHECK_EQ(label + ": first generation", rs.generation, np.zeros(n))
    CHECK_EQ(label + ": positions are points, directions are vectors", rs.rays[:, 3], np.stack((np.ones(n), np.zeros(n))))
    d = rs.rays[1]
    CHECK_EQ(label + ": directions are unit vectors", np.sum(d[:3] * d[:3], axis=0), np.ones(n))
'''

PATTERN = SRC + '''
def main(arg):
    kind, how = arg
    n = LANE("n") if how != "single" else 1
    w = SYM("wl", 0.3, 1, (0.05, 1.55, 10.6), 0.2)
    s = mk(kind, None if how == "default" else w)
    if how == "changed":
        s.generate_rays(n)
        w = SYM("wl2", 0.3, 1, (0.05, 1.55, 10.6), 0.2)
        s.wavelength = w
        CHECK_EQ("the wavelength set last is reported", s.wavelength, w)
    if how == "default":
        w = 0.633
    P = place(s)
    sn = SNAP(s, "source")
    rs = s.generate_rays(n)
    UNCHANGED("emitting rays does not change the source", sn)
    meta("emitted rays", rs, n, w)
    CHECK_EQ("emitted rays: full intensity", rs.intensity, np.full(n, 100.))
    pos, d = local(kind, n)
    CHECK_EQ("emitted rays start where the placed pattern says", rs.rays[0], np.matmul(P, hom(pos, 1, n)))
    e = np.matmul(P, hom(d, 0, n))
    # (which way the only ray of a cone goes that opens backwards is not documented)
    CHECK_EQ("emitted rays point where the placed pattern says", rs.rays[1], e / np.linalg.norm(e, axis=0), where=OR(n > 1, opening(kind) < 90) if kind == "cone" else True)
    # independent calls
    again = s.generate_rays(n)
    CHECK("every call hands out its own rays", not SHARES(rs, again))
    again.rays[0] = 7
    again.wavelength = 3
    third = s.generate_rays(n)
    CHECK_EQ("editing emitted rays does not affect later ones", np.asarray(third), np.asarray(rs))
'''

LAMP = SRC + '''
def some(draws, f, target):
    for d in draws:
        for e in (d, 1 - d):
            if EQUIV(f(e), target):
                return d
    return None


def distribution(rs, inv, n, width, length, top):
    """the emitted rays are the documented image of independent uniform random numbers"""
    p, d = np.matmul(inv, rs.rays[0]), np.matmul(inv, rs.rays[1])
    d = d / np.linalg.norm(d[:3], axis=0)
    CHECK_EQ("lamp rays start on the emitting plane", p[0], np.zeros(n))
    draws = DRAWS(n)
    y = some(draws, lambda u: width * (u - 0.5), p[1])
    z = some(draws, lambda u: length * (u - 0.5), p[2])
    c = some(draws, lambda u: 1 - u * (1 - np.cos(top)), d[0])
    CHECK("start points are uniform over the width", y is not None)
    CHECK("start points are uniform over the length", z is not None)
    CHECK("directions are uniform over the solid angle of the cap", c is not None)
    s = np.sqrt(np.maximum(1 - d[0] * d[0], 0))
    a = None
    for f, g in ((np.cos, np.sin), (np.sin, np.cos)):
        if a is None:
            a = some(draws, lambda u: s * f(2 * np.pi * u), d[1])
            if a is not None and some([a], lambda u: s * g(2 * np.pi * u), d[2]) is None:
                a = None
    CHECK("directions are uniform in azimuth", a is not None)
    picked = [x for x in (y, z, c, a) if x is not None]
    ok = True
    for i in range(len(picked)):
        for j in range(i):
            if EQUIV(picked[i], picked[j]):
                ok = False
    CHECK("position and direction of a ray are independent", ok)
    CHECK_EQ("intensity follows the cosine law", rs.intensity, 100 * d[0])


def main(arg):
    kind, moved = arg
    n = LANE("n")
    width, length, top = SYM("par", 0.2, 3, (0, 1e-3, 500), 0.2), SYM("par2", 0.2, 3, (1e-3, 500), 0.2), SYM("ang", 1, 90, (0.01, 90), 0.2) * np.pi / 180
    if kind == "half space":
        top = np.pi / 2
    w = SYM("wl", 0.3, 1, (0.05, 1.55, 10.6), 0.2)
    s = mk(kind, w)
    if moved:
        op = Op("rotate_x", "q")
        op2 = Op("move", "q2")
        op.apply(s)
        op2.apply(s)
        M = np.matmul(op2.matrix, op.matrix)
    else:
        M = np.identity(4)
    rs = s.generate_rays(n)
    meta("lamp rays", rs, n, w)
    distribution(rs, np.linalg.inv(M), n, width, length, top)
    fresh = s.generate_rays(n)
    if kind != "static":
        CHECK("a lamp draws new rays on every call", not EQUIV(fresh.rays[0], rs.rays[0]) and not EQUIV(fresh.rays[1], rs.rays[1]))
'''

STATIC = SRC + '''
def main(what):
    n = LANE("n")
    k = LANE("k")
    s = mk("static", SYM("wl", 0.3, 1, (0.05, 1.55, 10.6), 0.2))
    first = s.generate_rays(n)
    keep = np.array(first)
    if what == "repeat":
        CHECK_EQ("a static lamp repeats its rays", np.asarray(s.generate_rays(n)), keep)
        other = s.generate_rays(k)
        CHECK_EQ("another ray count gives that many rays", other.n_rays, k)
        CHECK_EQ("a static lamp repeats its rays after another count", np.asarray(s.generate_rays(n)), keep)
        CHECK_EQ("rays handed out earlier are not changed", np.asarray(first), keep)
    elif what == "edited":
        first.rays[0] = 5
        first.intensity = 0
        CHECK_EQ("editing emitted rays does not affect later ones", np.asarray(s.generate_rays(n)), keep)
    elif what == "moved":
        M = np.identity(4)
        for i, o in enumerate(("move", "rotate_y", "transform")):
            op = Op(o, "m%d" % i)
            op.apply(s)
            M = np.matmul(op.matrix, M)
            rs = s.generate_rays(n)
            CHECK_EQ("a moved static lamp emits the same rays from its new place (positions, %s)" % o, rs.rays[0], np.matmul(M, keep[:4]))
            d = np.matmul(M, keep[4:8])
            CHECK_EQ("a moved static lamp emits the same rays from its new place (directions, %s)" % o, rs.rays[1], d / np.linalg.norm(d, axis=0))
            CHECK_EQ("a moved static lamp keeps the intensities (%s)" % o, rs.intensity, keep[9])
    elif what == "wavelength":
        w = SYM("wl2", 0.3, 1, (0.05, 1.55, 10.6), 0.2)
        s.wavelength = w
        rs = s.generate_rays(n)
        CHECK_EQ("the wavelength set last is emitted", rs.wavelength, w + np.zeros(n))
        CHECK_EQ("changing the wavelength keeps the rays", rs.rays, keep[:8].reshape(2, 4, -1))
    elif what == "two lamps":
        t = mk("static", SYM("wl", 0.3, 1, (0.05, 1.55, 10.6), 0.2))
        other = t.generate_rays(n)
        CHECK("two static lamps have rays of their own", not EQUIV(other.rays[0], first.rays[0]))
        CHECK_EQ("a static lamp repeats its rays after another lamp emitted", np.asarray(s.generate_rays(n)), keep)
        CHECK_EQ("the second lamp repeats its rays", np.asarray(t.generate_rays(n)), np.asarray(other))
    elif what == "traced":
        tracer = pyrayt.RayTracer(s, [cg.Sphere(1.0, material=pyrayt.materials.mirror)], rays_per_source=n, generation_limit=2)
        a = tracer.trace()
        cols = [(c, np.array(a[c])) for c in ("id", "x0", "y0", "z0", "x1", "x_tilt", "intensity", "generation")]
        CHECK_EQ("tracing does not change the rays of a static lamp", np.asarray(s.generate_rays(n)), keep)
        b = tracer.trace()
        for c, x in cols:
            CHECK_EQ("simulations with a static lamp repeat: " + c, np.asarray(b[c]), x)
'''
STATICS = ["repeat", "edited", "moved", "wavelength", "two lamps", "traced"]

LAYOUT = SRC + '''
NAMES = ("generation", "intensity", "wavelength", "index", "id")


def main():
    n = LANE("n")
    rs = pyrayt.RaySet(n)
    CHECK_EQ("ray count", rs.n_rays, n)
    CHECK_EQ("default ids number the rays", rs.id, np.arange(n))
    for nm, v in (("generation", 0), ("intensity", 100), ("wavelength", 0.633), ("index", 1)):
        CHECK_EQ("default " + nm, getattr(rs, nm), np.full(n, v))
    CHECK_EQ("default rays are points at the origin without a direction", rs.rays, np.stack((hom([0, 0, 0], 1, n), np.zeros((4, n)))))
    vals = {nm: LVAR("f_" + nm, n) for nm in NAMES}
    R = np.zeros((2, 4, n))
    for i in range(2):
        for j in range(4):
            R[i, j] = LVAR("r%d%d" % (i, j), n)
    def everything(label):
        for nm in NAMES:
            CHECK_EQ("%s: %s reads back" % (label, nm), getattr(rs, nm), vals[nm])
        CHECK_EQ(label + ": rays read back", rs.rays, R)
    rs.rays = R
    for nm in NAMES:
        setattr(rs, nm, vals[nm])
    everything("after writing every field")
    # the accessors are views: writing through them changes the set and nothing else
    for i, nm in enumerate(NAMES):
        v = LVAR("g_" + nm, n)
        vals[nm] = v
        getattr(rs, nm)[:] = v
        everything("after writing through the %s view" % nm)
    for i, nm in enumerate(("positions", "directions")):
        x = np.zeros((4, n))
        for j in range(4):
            x[j] = LVAR("h%d%d" % (i, j), n)
        R[i] = x
        rs.rays[i] = x
        everything("after writing through the %s view" % nm)
    CHECK_EQ("the metadata block holds the five fields", rs.metadata.shape[0], 5)
    # selecting columns keeps every field with its ray
    m = LBOOL("sel", n)
    sub = rs[:, m]
    for nm in NAMES:
        CHECK_EQ("a selection keeps %s with its ray" % nm, getattr(sub, nm), vals[nm][m])
    CHECK_EQ("a selection keeps the geometry with its ray", sub.rays, R[:, :, m])
    CHECK_EQ("a selection has as many rays as selected", sub.n_rays, np.sum(m))
    sub.intensity = 1
    sub.rays[0] = 2
    everything("after editing a selection")
    # joining
    k = LANE("k")
    o = pyrayt.RaySet(k)
    o.wavelength = LVAR("ow", k)
    j = np.hstack((rs, o)).view(pyrayt.RaySet)
    CHECK_EQ("joined sets keep every wavelength", j.wavelength, np.concatenate((vals["wavelength"], LVAR("ow", k))))
    CHECK_EQ("joined sets keep every ray", j.n_rays, n + k)
'''


# whole numbers instead of fractional ones, keywords instead of positions
SPELLED = SRC + '''
def main(kind):
    n = LANE("n")
    c = comp
    every = {"line": [(lambda: c.LineOfRays(2., 1.), lambda: c.LineOfRays(2, 1)), (lambda: c.LineOfRays(2., 0.7), lambda: c.LineOfRays(wavelength=0.7, spacing=2)), (lambda: c.LineOfRays(1.), lambda: c.LineOfRays())],
             "circle": [(lambda: c.CircleOfRays(2., 1.), lambda: c.CircleOfRays(2, 1)), (lambda: c.CircleOfRays(3., 0.7), lambda: c.CircleOfRays(wavelength=0.7, diameter=3))],
             "cone": [(lambda: c.ConeOfRays(20., 1.), lambda: c.ConeOfRays(20, 1)), (lambda: c.ConeOfRays(20., 0.7), lambda: c.ConeOfRays(wavelength=0.7, cone_angle=20)), (lambda: c.ConeOfRays(100.), lambda: c.ConeOfRays(100))],
             "wedge": [(lambda: c.WedgeOfRays(20., 1.), lambda: c.WedgeOfRays(20, 1)), (lambda: c.WedgeOfRays(20., 0.7), lambda: c.WedgeOfRays(wavelength=0.7, angle=20))]}[kind]
    for a, b in every:
        x, y = a(), b()
        for o in (x, y):
            o.rotate_y(30).move(1., 2., 3.)
        p, q = x.generate_rays(n), y.generate_rays(n)
        CHECK_EQ("a source does not depend on how its parameters are written", np.asarray(p), np.asarray(q))
        CHECK_EQ("a source emits as many rays as asked for", y.generate_rays(n).n_rays, n)
'''
