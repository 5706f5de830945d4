"""Harnesses about the component factories: which solid a lens, mirror, prism, baffle or aperture is and what it is made of."""
from .geometry import GEO

PART = GEO + '''
C = pyrayt.components


def crossings(spans, member):
    ts, ok = [], []
    for lo, hi in spans:
        for t in (lo, hi):
            before = [AND(g[0] < t, t <= g[1]) for g in spans]
            after = [AND(g[0] <= t, t < g[1]) for g in spans]
            ts.append(t)
            b, a = member(before), member(after)
            ok.append(AND(np.isfinite(t), OR(AND(a, NOT(b)), AND(b, NOT(a)))))
    return np.sort(np.stack([np.where(k, t, INF) for k, t in zip(ok, ts)]), axis=0), ts


def pad(h, rows):
    h = np.sort(h, axis=0)
    if h.shape[0] >= rows:
        return h
    return np.concatenate((h, np.full((rows - h.shape[0], h.shape[1]), INF)), axis=0)


def ball(o, d, c, r):
    q = np.stack([o[i] - c[i] for i in range(3)])
    return quad(np.sum(d * d, axis=0), 2 * np.sum(q * d, axis=0), np.sum(q * q, axis=0) - r * r)


def opening(o, d, ap, off=(0, 0)):
    """the aperture, extruded along x"""
    y, z = o[1] - off[0], o[2] - off[1]
    if not hasattr(ap, "__len__"):
        return quad(d[1] ** 2 + d[2] ** 2, 2 * (y * d[1] + z * d[2]), y * y + z * z - (ap / 2) ** 2)
    a, b = ap
    if SIGN(a) > 0:
        return meet(slab(y, d[1], -a / 2, a / 2), slab(z, d[2], -b / 2, b / 2))
    return quad((2 * d[1] / a) ** 2 + (2 * d[2] / b) ** 2, 2 * (4 * y * d[1] / a ** 2 + 4 * z * d[2] / b ** 2), (2 * y / a) ** 2 + (2 * z / b) ** 2 - 1)


def SIGN(v):
    return -1 if v < 0 else 1


def unit_length():
    """parts of everyday size, and very large and very small ones"""
    return SYM("unit", 1, 1, (1000, 0.01), 0.3)


def ap_of(kind):
    a, b = SYM("a1", 0.5, 1.5) * unit_length(), SYM("a2", 0.5, 1.5) * unit_length()
    return {"circle": a, "rectangle": (a, b), "ellipse": (-a, -b), "default": None}[kind]


def reach(ap):
    """largest distance of an aperture point from the axis (upper bound)"""
    if not hasattr(ap, "__len__"):
        return ap / 2
    return np.sqrt(ap[0] ** 2 + ap[1] ** 2) / 2


def beam(n, cx, span, off=(0, 0)):
    p, d = np.zeros((4, n)), np.zeros((4, n))
    t = LVAR("bt", n, 0.5, 4) * unit_length()
    for i in range(3):
        p[i] = LVAR("bp%d" % i, n, -1, 1) * (span if i else 0.4) * unit_length() + (cx if i == 0 else off[i - 1])
        d[i] = LVAR("bd%d" % i, n, -1, 1)
    d[0] = d[0] * 3
    p[3] = 1
    return np.stack((p - t * d, d))


def same_solid(label, obj, rays, spans, member, flat=False):
    want, ts = crossings(spans, member)
    hits, ids = obj.intersect(rays)
    k = max(hits.shape[0], want.shape[0])
    CHECK_EQ(label + "rays enter and leave the component where its documented surface is", pad(hits, k) / unit_length(), pad(want, k) / unit_length(), rtol=1e-5, atol=1e-5)
    return hits, ids


def made_of(label, obj, mats):
    """every surface has one of the materials given"""
    for i, s in obj.surface_ids:
        CHECK(label, any([SAMEOBJ(s.material, m) for m in mats]))
'''

LENS = PART + '''
def main(arg):
    kind, s1, s2, apk, named = arg
    n = LANE("n")
    ap = ap_of(apk)
    S = unit_length()
    t = SYM("th", 0.3, 0.9) * S
    r1, r2 = SYM("r1", 1.3, 6, (300, 2000), 0.15) * S, SYM("r2", 1.3, 6, (300, 2000), 0.15) * S
    R1 = {"+": r1, "-": -r1, "inf": INF}[s1]
    R2 = {"+": r2, "-": -r2, "inf": INF}[s2]
    m = pyrayt.materials.BasicRefractor(1.7)
    kw = {}
    if ap is not None:
        kw["aperture"] = ap
    if named:
        kw["material"] = m
    if kind == "thick":
        lens = C.thick_lens(R1, R2, t, **kw)
    elif kind == "biconvex":
        lens = C.biconvex_lens(R1, R2, t, **kw)
        s1, s2 = ("inf" if s1 == "inf" else "+"), ("inf" if s2 == "inf" else "-")
    elif kind == "keywords":
        lens = C.thick_lens(thickness=t, r2=R2, r1=R1, **kw)
    elif kind == "plano":
        lens = C.plano_convex_lens(R2, t, **kw)
        s1, s2 = "inf", ("inf" if s2 == "inf" else "-")
    if ap is None:
        ap = 1.
        ASSUME(S == 1)
    rays = beam(n, 0, 0.6)
    o, d = rays[0, :3], rays[1, :3]
    H = reach(ap)
    sag = lambda r: r - np.sqrt(r * r - H * H)
    x0 = -t / 2 - (sag(r1) if s1 == "-" else 0)
    x1 = t / 2 + (sag(r2) if s2 == "+" else 0)
    spans = [opening(o, d, ap), slab(o[0], d[0], x0, x1)]
    terms = [lambda v: v[0], lambda v: v[1]]
    if s1 != "inf":
        k1 = len(spans)
        spans.append(ball(o, d, (-t / 2 + (r1 if s1 == "+" else -r1), 0, 0), r1))
        terms.append((lambda v: v[k1]) if s1 == "+" else (lambda v: NOT(v[k1])))
    if s2 != "inf":
        k2 = len(spans)
        spans.append(ball(o, d, (t / 2 + (r2 if s2 == "+" else -r2), 0, 0), r2))
        terms.append((lambda v: NOT(v[k2])) if s2 == "+" else (lambda v: v[k2]))
    member = lambda v: AND(*[f(v) for f in terms])
    same_solid("", lens, rays, spans, member)
    made_of("every surface of the lens has the lens material", lens, [m if named else pyrayt.materials.glass["ideal"]])
    CHECK_EQ("a new lens is centred at the origin", lens.get_position(), np.array([0, 0, 0, 1.]))
    CHECK_EQ("a new lens points along +x", lens.get_orientation(), np.array([1., 0, 0, 0]))
    # the faces seen by a ray along the axis
    ax = np.array([[[-9. * S], [0.], [0.], [1.]], [[1.], [0.], [0.], [0.]]])
    h, ids = lens.intersect(ax)
    h = np.sort(h, axis=0)
    CHECK_EQ("the first vertex is half a thickness before the centre", h[0, 0] - 9 * S, -t / 2, rtol=1e-6)
    CHECK_EQ("the last vertex is half a thickness behind the centre", h[1, 0] - 9 * S, t / 2, rtol=1e-6)
'''

MIRROR = PART + '''
def main(arg):
    kind, apk, offaxis, named = arg
    n = LANE("n")
    ap = ap_of(apk)
    S = unit_length()
    off = (SYM("o1", -0.5, 0.5) * S, SYM("o2", -0.5, 0.5) * S) if offaxis else (0, 0)
    t = SYM("th", 0.3, 0.9) * S
    m = pyrayt.materials.BasicRefractor(1.7)
    kw = {}
    if ap is not None:
        kw["aperture"] = ap
    if named:
        kw["material"] = m
    if offaxis:
        kw["off_axis"] = off
    own = m if named else pyrayt.materials.mirror
    absorber = pyrayt.materials.absorber
    A = 1. if ap is None else ap
    if ap is None:
        ASSUME(S == 1)
    if kind in ("plane", "sphere inf"):
        mirror = C.plane_mirror(t, **kw) if kind == "plane" else C.spherical_mirror(INF, t, **kw)
        rays = beam(n, -t / 2, 0.6, off)
        o, d = rays[0, :3], rays[1, :3]
        same_solid("", mirror, rays, [opening(o, d, A, off), slab(o[0], d[0], -t, 0)], lambda v: AND(v[0], v[1]))
        made_of("every side of a plane mirror reflects", mirror, [own])
        return
    if kind == "flat":
        mirror = C.plane_mirror(0., **kw)
        rays = beam(n, 0, 0.6, off)
        o, d = rays[0, :3], rays[1, :3]
        lo, hi = opening(o, d, A, off)
        x = -o[0] / d[0]
        inside = AND(lo <= x, x <= hi)
        h, ids = mirror.intersect(rays)
        edge = AND(np.abs(x - lo) > 1e-6 * unit_length(), np.abs(x - hi) > 1e-6 * unit_length())
        CHECK_EQ("a mirror of zero thickness is a planar mirror", np.min(h, axis=0), np.where(inside, x, INF), where=edge)
        made_of("a planar mirror reflects", mirror, [own])
        return
    if kind == "sphere bulging":
        # a negative radius: the mirror image of the mirror of that radius
        r = SYM("r1", 3, 7, (300,), 0.1) * S
        mirror = C.spherical_mirror(-r, t, **kw)
        rays = beam(n, 0, 0.6, off)
        o, d = rays[0, :3], rays[1, :3]
        top = r - np.sqrt(r * r - (np.sqrt(off[0] ** 2 + off[1] ** 2) + reach(A)) ** 2)
        spans = [opening(o, d, A, off), slab(o[0], d[0], -top, t), ball(o, d, (-r, 0, 0), r)]
        h, ids = same_solid("", mirror, rays, spans, lambda v: AND(v[0], v[1], NOT(v[2])))
        surface = lambda p: np.abs(np.sqrt((p[0] + r) ** 2 + p[1] ** 2 + p[2] ** 2) - r) < 1e-6 * S
    elif kind == "sphere":
        r = SYM("r1", 3, 7, (300,), 0.1) * S
        mirror = C.spherical_mirror(r, t, **kw)
        rays = beam(n, 0, 0.6, off)
        o, d = rays[0, :3], rays[1, :3]
        top = r - np.sqrt(r * r - (np.sqrt(off[0] ** 2 + off[1] ** 2) + reach(A)) ** 2)
        spans = [opening(o, d, A, off), slab(o[0], d[0], -t, top), ball(o, d, (r, 0, 0), r)]
        h, ids = same_solid("", mirror, rays, spans, lambda v: AND(v[0], v[1], NOT(v[2])))
        surface = lambda p: np.abs(np.sqrt((p[0] - r) ** 2 + p[1] ** 2 + p[2] ** 2) - r) < 1e-6 * S
    else:
        f = SYM("f1", 0.15, 4, (50,), 0.1) * S
        mirror = C.parabolic_mirror(f, t, **kw)
        rays = beam(n, -f, 0.6, off)
        o, d = rays[0, :3], rays[1, :3]
        bowl = quad(d[1] ** 2 + d[2] ** 2, 2 * (o[1] * d[1] + o[2] * d[2]) - 4 * f * d[0], o[1] ** 2 + o[2] ** 2 - 4 * f * (o[0] + f))
        far = 40. * S
        spans = [opening(o, d, A, off), slab(o[0], d[0], -f - t, far), bowl]
        h, ids = same_solid("", mirror, rays, spans, lambda v: AND(v[0], v[1], NOT(v[2])))
        surface = lambda p: np.abs((p[1] ** 2 + p[2] ** 2) / (4 * f) - f - p[0]) < 1e-6 * S
    pairs = dict(mirror.surface_ids)
    for row in (0, 1):
        hh = h[row]
        fin = np.isfinite(hh)
        p = o + np.where(fin, hh, 0) * d
        on = surface(p)
        reflecting = np.zeros(n)
        for i, s in mirror.surface_ids:
            CHECK("every surface is the mirror surface or absorbing", SAMEOBJ(s.material, own) or SAMEOBJ(s.material, absorber))
            reflecting = np.where(AND(ids[row] == i, SAMEOBJ(s.material, own)), 1., reflecting)
        CHECK_EQ("exactly the curved surface is reflective, all other sides absorb", reflecting, np.where(on, 1., 0.), where=fin)
'''

PLANAR = PART + '''
def main(arg):
    kind, apk, apk2 = arg
    n = LANE("n")
    a = ap_of(apk)
    rays = beam(n, 0, 0.9)
    o, d = rays[0, :3], rays[1, :3]
    x = -o[0] / d[0]

    def covers(ap):
        lo, hi = opening(o, d, ap)
        return AND(lo <= x, x <= hi), AND(np.abs(x - lo) > 1e-6 * unit_length(), np.abs(x - hi) > 1e-6 * unit_length())
    if kind == "baffle":
        obj = C.baffle(a)
        want, edge = covers(a)
    else:
        b = ap_of(apk2)
        if hasattr(b, "__len__"):
            b = (b[0] / 2, b[1] / 2)
        else:
            b = b / 2
        obj = C.aperture(a, b)
        w1, e1 = covers(a)
        w2, e2 = covers(b)
        want, edge = AND(w1, NOT(w2)), AND(e1, e2)
    h, ids = obj.intersect(rays)
    CHECK_EQ("rays meet the absorbing plane exactly where it is closed", np.min(h, axis=0), np.where(want, x, INF), where=edge)
    for i, s in obj.surface_ids:
        hitting = np.zeros(n)
        for row in range(h.shape[0]):
            hitting = np.where(AND(np.isfinite(h[row]), ids[row] == i), 1., hitting)
        if not SAMEOBJ(s.material, pyrayt.materials.absorber):
            CHECK_EQ("whatever is hit absorbs", hitting, np.zeros(n), where=edge)
'''

PRISM = PART + '''
def main(named):
    n = LANE("n")
    L, W = SYM("L", 0.6, 2) * unit_length(), SYM("W", 0.6, 2) * unit_length()
    m = pyrayt.materials.BasicRefractor(1.7)
    prism = C.equilateral_prism(L, W, m) if named == 1 else (C.equilateral_prism(L, W, material=m) if named else C.equilateral_prism(side_length=L, width=W))
    p, d = np.zeros((4, n)), np.zeros((4, n))
    t = LVAR("bt", n, 0.5, 4) * unit_length()
    for i in range(3):
        p[i] = LVAR("bp%d" % i, n, -0.6, 0.6) * (L if i != 1 else W)
        d[i] = LVAR("bd%d" % i, n, -1, 1)
    p[3] = 1
    rays = np.stack((p - t * d, d))
    o, d = rays[0, :3], rays[1, :3]
    s60 = np.sqrt(3.) / 2
    h = L * s60
    # sides: z = h/2 - tan60 |x|
    spans = [slab(o[1], d[1], -W / 2, W / 2), slab(o[2], d[2], -h / 2, h),
             slab(o[2] + 2 * s60 * o[0], d[2] + 2 * s60 * d[0], -20. * unit_length(), h / 2), slab(o[2] - 2 * s60 * o[0], d[2] - 2 * s60 * d[0], -20. * unit_length(), h / 2)]
    same_solid("", prism, rays, spans, lambda v: AND(*v))
    made_of("every surface of the prism has the prism material", prism, [m if named else pyrayt.materials.glass["BK7"]])
'''

BADPARTS = PART + '''
def main():
    for nm, f in (("lens", lambda: C.thick_lens(5., 5., 0.2, aperture=(1., -1.))), ("biconvex", lambda: C.biconvex_lens(5., 5., 0.2, aperture=(-1., 1.))),
                  ("plane mirror", lambda: C.plane_mirror(1., aperture=(1., -1.)))):
        CHECK("an aperture of mixed signs is refused (%s)" % nm, RAISES(f) == "TypeError")
    # factories never share state
    a = C.biconvex_lens(5., 5., 0.3, aperture=1.0)
    b = C.biconvex_lens(5., 5., 0.3, aperture=1.0)
    before = b.get_world_transform()
    a.move(1, 2, 3)
    CHECK_EQ("two lenses are independent objects", b.get_world_transform(), before)
    ids = [p[0] for p in a.surface_ids] + [p[0] for p in b.surface_ids]
    CHECK("no surface id is used twice", len(set(ids)) == len(ids))
'''


# the same arguments written differently: whole numbers, lists and arrays instead of tuples
SPELLED = PART + '''
def pairs(kind):
    aps = [((1.5, 1.), [1.5, 1.]), ((1.5, 1.), np.array([1.5, 1.])), ((-1.5, -1.), [-1.5, -1.]), ((-1.5, -1.), np.array((-1.5, -1.))), (1., 1), (2., np.float64(2)), ((2., 1.), (2, 1)), ((-2., -1.), [-2, -1])]
    for a, b in aps:
        if kind == "thick":
            yield C.thick_lens(5., -4., 1., aperture=a), C.thick_lens(5, -4, 1, aperture=b)
        elif kind == "biconvex":
            yield C.biconvex_lens(5., 4., 2., aperture=a), C.biconvex_lens(5, 4, 2, aperture=b)
        elif kind == "plano":
            yield C.plano_convex_lens(5., 2., aperture=a), C.plano_convex_lens(5, 2, aperture=b)
        elif kind == "plane mirror":
            yield C.plane_mirror(1., aperture=a), C.plane_mirror(1, aperture=b)
        elif kind == "spherical mirror":
            yield C.spherical_mirror(8., 1., aperture=a), C.spherical_mirror(8, 1, aperture=b)
            yield C.spherical_mirror(8., 1., aperture=a, off_axis=(1., 2.)), C.spherical_mirror(8, 1, aperture=b, off_axis=[1, 2])
        elif kind == "parabolic mirror":
            yield C.parabolic_mirror(3., 1., aperture=a), C.parabolic_mirror(3, 1, aperture=b)
            yield C.parabolic_mirror(3., 1., aperture=a, off_axis=(1., 2.)), C.parabolic_mirror(3, 1, aperture=b, off_axis=np.array([1, 2]))
        elif kind == "baffle":
            yield C.baffle(a), C.baffle(b)
        elif kind == "aperture":
            yield C.aperture(4., a), C.aperture(4, b)
            yield C.aperture((3., 2.5), a), C.aperture([3, 2.5], b)
        else:
            yield C.equilateral_prism(2., 3.), C.equilateral_prism(2, 3)


def main(kind):
    n = LANE("n")
    rays = beam(n, 0, 0.9)
    for x, y in pairs(kind):
        h, i = x.intersect(rays)
        g, j = y.intersect(rays)
        CHECK_EQ("a component does not depend on how its parameters are written", h, g)
'''
