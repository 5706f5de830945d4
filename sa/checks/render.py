"""Harnesses about rendering and plotting."""
from .geometry import GEO
from .tracer import ORACLE

REN = GEO + '''
gooch = cg.materials.gooch
FAMS = %r


def color(tag):
    c = cg.materials.color.RGBAColor() if hasattr(cg.materials, "color") else np.zeros(4)
    for i in range(4):
        c[i] = SYM("%%s%%d" %% (tag, i), 0, 1)
    return c


def paint(tag):
    return gooch.GoochMaterial(base_color=color(tag + "b"), warm_color=color(tag + "w"), cool_color=color(tag + "c"), alpha=SYM(tag + "al", 0, 1), beta=SYM(tag + "be", 0, 1))


def gooch_shade(m, points, normals, lights):
    """Gooch et al. 1998: blend of a warm and a cool tone by the angle to the light, averaged over the lights"""
    mix = 0
    for l in lights:
        v = np.stack([l[i] - points[i] for i in range(3)])
        c = np.sum(v * normals[:3], axis=0) / np.sqrt(np.sum(v * v, axis=0))
        mix = mix + (1 + c) / 2 / len(lights)
    out = []
    for i in range(4):
        warm = (1 - m.alpha) * m.warm_color[i] + m.alpha * m.base_color[i]
        cool = (1 - m.beta) * m.cool_color[i] + m.beta * m.base_color[i]
        out.append(warm * mix + cool * (1 - mix))
    return np.stack(out)


def pixel_rays(P, H, V, w, v):
    """the ray of every pixel, row by row from the top left as the camera sees it"""
    o, d = np.zeros((4, H * V)), np.zeros((4, H * V))
    for r in range(V):
        for c in range(H):
            k = r * H + c
            o[1, k] = w / 2 - w * c / (H - 1) if H > 1 else w / 2
            o[2, k] = v / 2 - v * r / (V - 1) if V > 1 else v / 2
    o[3] = 1
    d[0] = 1
    d = np.matmul(P, d)
    return np.matmul(P, o), d / np.linalg.norm(d[:3], axis=0)


def nearest(objs, o, d):
    """first surface strictly ahead: distance (inf if there is none), surface id"""
    best, sid = np.full(o.shape[1], np.inf), np.full(o.shape[1], -1)
    for b in objs:
        h, s = b.intersect(np.stack((o, d)))
        for i in range(h.shape[0]):
            ok = AND(h[i] > 0, h[i] < best)
            sid = np.where(ok, s[i], sid)
            best = np.where(ok, h[i], best)
    return best, sid


def scene(kind):
    mats = [paint("m%%d" %% i) for i in range(3)]
    if kind == "stubs":
        objs = [Stub("c%%d" %% i, FAMS[i], mats[i]) for i in range(2)]
    elif kind == "solids":
        objs = [cg.Sphere(1.0, material=mats[0]).transform(affine("A")), cg.Cuboid((-0.9, -0.7, -0.8), (0.8, 1., 0.9), material=mats[1]).transform(affine("B"))]
    elif kind == "compound":
        objs = [cg.csg.difference(cg.Sphere(1.0, material=mats[0]), cg.Cylinder(0.5, -2., 2., material=mats[1]).rotate_x(angle("r"))), cg.XYPlane(3., 2., material=mats[2]).move(0, 0, SYM("pz"))]
    elif kind == "group":
        g = cg.ObjectGroup([Stub("c%%d" %% i, FAMS[i], mats[i]) for i in range(2)])
        objs = g
    elif kind == "glass":
        objs = [Stub("c0", FAMS[0], pyrayt.materials.glass["BK7"]), Stub("c1", FAMS[1], pyrayt.materials.mirror)]
    return objs


def camera():
    w = SYM("w", 1, 6)
    cam = cg.OrthographicCamera(3, w, 0.7)
    P = affine("P")
    cam.transform(P)
    return cam, P, w
''' % ([("choice:-1.5,-0.25,0.5,1.25,2.5,inf", "choice:-1.75,0.375,1.125,3.5,inf,inf"), ("choice:-1.6,0.45,0.7,0,2.6,inf", "choice:-2.5,-0.15,0.8,3.1,inf,inf")],)

CAMERA = REN + '''
def main(arg):
    H, asp, V, poses = arg
    asp = CONST(asp)
    w = SYM("w", 0.5, 6)
    cam = cg.OrthographicCamera(H, w, asp)
    P = np.identity(4)
    for i, k in enumerate(poses):
        op = Op(k, "p%d" % i)
        op.apply(cam)
        P = np.matmul(op.matrix, P)
    CHECK_EQ("resolution", np.array(cam.get_resolution()), np.array([H, V]))
    CHECK_EQ("span", np.array(cam.get_span()), np.array([w, w * asp]))
    sn = SNAP(cam, "camera")
    rays = cam.generate_rays()
    UNCHANGED("taking a picture does not change the camera", sn)
    o, d = pixel_rays(P, H, V, w, w * asp)
    CHECK_EQ("one ray per pixel", rays.shape[-1], H * V)
    CHECK_EQ("pixel rays start where the placed camera says", rays[0], o)
    CHECK_EQ("pixel rays point where the placed camera looks", rays[1], d)
    again = cam.generate_rays()
    CHECK("every picture has its own rays", not SHARES(rays, again))
'''

SHADED = REN + '''
def main(arg):
    kind, many = arg
    objs = scene(kind)
    cam, P, w = camera()
    lights = [[SYM("l%d%s" % (j, a), 4, 9) for a in "xyz"] for j in range(many or 1)]
    if many:
        light = np.ones((4, many))
        for j in range(many):
            for i in range(3):
                light[i, j] = lights[j][i]
    else:
        light = cg.Point(lights[0][0], lights[0][1], lights[0][2])
    ren = cg.renderers.ShadedRenderer(cam, objs, light_position=light)
    sn = SNAP([objs, cam], "scene")
    img = ren.render()
    UNCHANGED("rendering changes neither the scene nor the camera", sn)
    H, V = cam.get_resolution()
    CHECK_EQ("image size", np.array(img.shape), np.array([V, H, 4]))
    o, d = pixel_rays(P, H, V, w, 0.7 * w)
    t, sid = nearest(objs, o, d)
    want = np.zeros((4, H * V))
    hit = np.isfinite(t)
    p = o + np.where(hit, t, 0) * d
    surfaces = []
    for b in objs:
        for i, s in b.surface_ids:
            surfaces.append(s)
            m = s.material
            nrm = s.get_world_normals(p)
            tone = m.shade(np.stack((p, d)), nrm, light) if hasattr(m, "trace") else gooch_shade(m, p, nrm, lights)
            want = np.where(AND(hit, sid == i), tone, want)
    for r in range(V):
        for c in range(H):
            CHECK_EQ("pixel %d,%d shows the nearest surface ahead, shaded by its own material" % (r, c), img[r, c], want[:, r * H + c])
    again = ren.render()
    CHECK_EQ("rendering again gives the same picture", again, img)
    objs[0].transform(affine("later"))
    moved = ren.render()
    fresh = cg.renderers.ShadedRenderer(cam, objs, light_position=light).render()
    CHECK_EQ("a picture shows the scene as it is when it is taken", moved, fresh)
'''

EDGES = REN + '''
class Tiles(cg.world_objects.Intersectable):
    """a component of which every pixel of the picture shows a given surface (ids well apart, next to each other, or none)"""
    def __init__(self, table):
        super().__init__()
        self.table = table

    def intersect(self, rays):
        s = self.table.reshape(1, -1)
        return np.where(s < 0, np.inf, 1.) * np.ones((1, s.shape[1])), s

    @property
    def surface_ids(self):
        return tuple()


def main(arg):
    kind, k = arg if isinstance(arg, tuple) else (arg, 0)
    if kind == "tiles":
        R, C = np.arange(5).reshape(5, 1) * np.ones((1, 6), dtype=int), np.arange(6).reshape(1, 6) * np.ones((5, 1), dtype=int)
        objs = [Tiles([lambda: 5 + C - R, lambda: 5 + C + R, lambda: (C + R) % 2, lambda: (C // 2) * 3 - 1, lambda: (R // 2) * 2 - 1, lambda: 7 * (C // 3) + 3 * (R // 3) - 1,
                       lambda: np.where(AND(C == 3, R == 2), 4, -1), lambda: 2 * C - 3 * R + 12, lambda: 0 * C, lambda: 0 * C - 1,
                       lambda: (C * C + 3 * R * R + C * R) % 5 - 1, lambda: np.where(C > R, 100000, 100001)][k]())]
    else:
        objs = scene(kind)
    w = SYM("w", 1, 6)
    H, V = 6, 5
    cam = cg.OrthographicCamera(H, w, 0.84)
    P = affine("P")
    cam.transform(P)
    ren = cg.renderers.EdgeRender(cam, objs)
    sn = SNAP([objs, cam], "scene")
    img = ren.render()
    UNCHANGED("rendering changes neither the scene nor the camera", sn)
    CHECK_EQ("image size", np.array(img.shape), np.array([V, H, 4]))
    o, d = pixel_rays(P, H, V, w, 0.84 * w)
    t, sid = nearest(objs, o, d)
    s = sid.reshape(V, H)
    CHECK_EQ("an outline drawing is black lines on a transparent ground", img[:, :, :3], np.where(img[:, :, 3:] > 0.5, 0., 1.) + np.zeros((V, H, 3)))
    CHECK_EQ("an outline pixel is opaque, every other pixel transparent", img[:, :, 3], np.where(img[:, :, 3] > 0.5, 1., 0.))
    for r in range(V):
        for c in range(H):
            near = [(r + a, c + b) for a, b in ((0, 1), (1, 0)) if r + a < V and c + b < H]
            for q in near:
                change = s[r, c] != s[q[0], q[1]]
                on = AND(img[r, c, 3] > 0.5, img[q[0], q[1], 3] > 0.5)
                CHECK("a change of the visible surface is outlined", OR(on, NOT(change)))
            if 2 <= r < V - 2 and 2 <= c < H - 2:
                same = AND(*[s[r, c] == s[r + a, c + b] for a in (-2, -1, 0, 1, 2) for b in (-2, -1, 0, 1, 2)])
                CHECK("no outline inside a uniform region", OR(NOT(same), img[r, c, 3] < 0.5))
    CHECK_EQ("the results are the rendered image", ren.get_results(), img)
'''

# a picture drawn in a plot lies where the components are
DRAW = REN + '''
def main(arg):
    kind, view, shaded, bounded, at = arg
    at = [CONST(a) for a in at]
    m = [paint("m%d" % i) for i in range(3)]
    if kind == "sphere":
        objs = cg.Sphere(1.0, material=m[0]).move(at[0], at[1], at[2])
    elif kind == "tall":
        objs = [cg.Cuboid((-0.5, -1.5, -1.), (0.5, 1., 2.), material=m[0]).move(at[0], at[1], at[2])]
    elif kind == "pair":
        objs = (cg.Sphere(1.0, material=m[0]).move(at[0], at[1], at[2]), cg.Cuboid((-0.5, -1.5, -1.), (0.5, 1., 2.), material=m[1]).move(at[0] + 1.5, at[1] + 1, at[2] - 1))
    elif kind == "hollow":
        objs = [cg.csg.difference(cg.Sphere(2.0, material=m[0]), cg.Cuboid((-1., -1., -3.), (1., 1., 3.), material=m[1])).move(at[0], at[1], at[2])]
    elif kind == "edge-on":
        objs = cg.XYPlane(2., 1., material=m[0]).move(at[0], at[1], at[2])
    elif kind == "thin":
        objs = [cg.Cuboid((-1., -0.01, -0.02), (1., 0.01, 0.02), material=m[0]).move(at[0], at[1], at[2])]
    kw = {}
    if bounded:
        kw["bounds"] = ([at[0] - 2, at[1] - 2, at[2] - 2], [at[0] + 3, at[1] + 2, at[2] + 4])
    each = objs if hasattr(objs, "__iter__") else (objs,)
    sn = SNAP(objs, "components")
    if bounded == 2:
        cg.renderers.draw(objs, view=view, shaded=shaded, resolution=7, **kw)
    else:
        ax = plt.gca()
        cg.renderers.draw(objs, view, ax, shaded, resolution=7, **kw)
    UNCHANGED("drawing does not change the components", sn)
    calls = MPL("imshow")
    CHECK("one picture is drawn", len(calls) == 1)
    who, _, args, kws = calls[0]
    CHECK("the picture is drawn into the axis", who == "Axes")
    img, ext = args[0], kws["extent"]
    V, H = img.shape[0], img.shape[1]
    cols = [0, 1 if view == "xy" else 2]
    if bounded:
        lo, hi = [kw["bounds"][0][i] for i in cols], [kw["bounds"][1][i] for i in cols]
        CHECK_EQ("the picture is centred on the bounds", np.array([(ext[0] + ext[1]) / 2, (ext[2] + ext[3]) / 2]), np.array([(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2]))
        CHECK("the picture covers the bounds", bool(ext[0] <= lo[0] and ext[1] >= hi[0] and ext[2] <= lo[1] and ext[3] >= hi[1]))
    else:
        for b in each:
            p = b.bounding_volume.bounding_points
            CHECK("the picture covers every component", AND(ext[0] <= np.min(p[cols[0]]), ext[1] >= np.max(p[cols[0]]), ext[2] <= np.min(p[cols[1]]), ext[3] >= np.max(p[cols[1]])))
    # what a distant viewer sees at each pixel
    n = H * V
    o, d = np.zeros((4, n)), np.zeros((4, n))
    for r in range(V):
        for c in range(H):
            k = r * H + c
            o[cols[0], k] = ext[0] + (ext[1] - ext[0]) * c / max(H - 1, 1)
            o[cols[1], k] = ext[3] - (ext[3] - ext[2]) * r / max(V - 1, 1)
    far = 3 - cols[1]
    sgn = 1 if view == "xy" else -1
    o[far] = at[far] + 50 * sgn
    d[far] = -sgn
    o[3] = 1
    t, sid = nearest(each, o, d)
    hit = np.isfinite(t).reshape(V, H)
    # grazing pixels may go either way
    clear = 1
    for a, b in ((1e-5, 0), (-1e-5, 0), (0, 1e-5), (0, -1e-5)):
        q = o.copy()
        q[cols[0]] = q[cols[0]] + a
        q[cols[1]] = q[cols[1]] + b
        t2, s2 = nearest(each, q, d)
        clear = np.where(s2 == sid, clear, 0)
    ok = (clear > 0).reshape(V, H)
    if shaded:
        seen = np.zeros((V, H))
        for k in range(4):
            seen = np.where(np.abs(img[:, :, k]) > 1e-9, 1., seen)
        CHECK_EQ("a component appears in the plot exactly where it is", seen, np.where(hit, 1., 0.), where=ok)
        p = (o + np.where(np.isfinite(t), t, 0) * d)
        tones = []
        for b in each:
            for i, s in b.surface_ids:
                tones.append((i, s))
        # the tone lies between the cool and the warm tone of the visible surface, at the mix its normal asks for
        light = None
        for i, s in tones:
            mm = s.material
            mask = AND(sid == i, np.isfinite(t)).reshape(V, H)
            warm = [(1 - mm.alpha) * mm.warm_color[k] + mm.alpha * mm.base_color[k] for k in range(4)]
            cool = [(1 - mm.beta) * mm.cool_color[k] + mm.beta * mm.base_color[k] for k in range(4)]
            mix = (img[:, :, 0] - cool[0]) / (warm[0] - cool[0])
            CHECK("each pixel has the colors of the surface visible there", OR(NOT(AND(mask, ok)), AND(mix >= -1e-6, mix <= 1 + 1e-6)))
            for k in (1, 2, 3):
                CHECK_EQ("each pixel mixes the two tones of the surface visible there", img[:, :, k], cool[k] + mix * (warm[k] - cool[k]), where=AND(mask, ok))
    else:
        s = sid.reshape(V, H)
        for r in range(V):
            for c in range(H):
                for a, b in ((0, 1), (1, 0)):
                    if r + a < V and c + b < H:
                        on = AND(img[r, c, 3] > 0.5, img[r + a, c + b, 3] > 0.5)
                        CHECK("outlines appear in the plot where the components have theirs", OR(on, s[r, c] == s[r + a, c + b], NOT(AND(ok[r, c], ok[r + a, c + b]))))
'''.replace("gooch = cg", "import matplotlib.pyplot as plt\ngooch = cg", 1)
DRAW = DRAW.replace("\nOPS", "\nOPS") if "import matplotlib" in DRAW else "import matplotlib.pyplot as plt\n" + DRAW

SHOW = "import matplotlib.pyplot as plt\n" + ORACLE + '''
import pandas as pd
from pyrayt.utils import wavelength_to_rgb


def main(arg):
    view, color, own = arg[:3]
    many = arg[3] if len(arg) > 3 else 2
    n = LANE("n")
    mat = Mat("m")
    comp = [Stub("c0", %r, mat), Stub("c1", ("choice:0.45,0.8,2.7,inf",), pyrayt.materials.mirror)]
    for c in comp:
        c._aobb = None
    src = [Src("s%%d" %% j) for j in range(many)]
    drawn = []
    tr = pyrayt.RayTracer(src, comp, rays_per_source=n, generation_limit=2)
    f = tr.trace()
    ax = plt.gca()
    kw = {"color_function": color} if color else {}
    if color == "source":
        tr.set_rays_per_source(LANE("other"))
    cols = {c: np.array(f[c]) for c in ("x0", "y0", "z0", "x1", "y1", "z1", "wavelength", "id")}
    cg.renderers.draw = lambda *a, **k: drawn.append((a, k))
    if hasattr(pyrayt._pyrayt, "draw"):
        pyrayt._pyrayt.draw = cg.renderers.draw
    sn = SNAP([comp, tr.get_results()], "components and results")
    if own:
        tr.show(view, axis=ax, ray_width=0.5, **kw)
    else:
        tr.show(view=view, **kw)
    UNCHANGED("showing results changes neither them nor the components", sn)
    CHECK("the components are drawn once", len(drawn) == 1)
    CHECK("the components are drawn in the same view", drawn[0][1].get("view", drawn[0][0][1] if len(drawn[0][0]) > 1 else None) == view)
    CHECK("plots are displayed only when no axis is given", (len(MPL("show")) > 0) == (not own))
    q = MPL("quiver")
    CHECK("the rays are drawn once", len(q) == 1)
    who, _, a, k = q[0]
    v = view[1]
    for lab, got, want in (("start (horizontal)", a[0], cols["x0"]), ("start (vertical)", a[1], cols[v + "0"]),
                           ("extent (horizontal)", a[2], cols["x1"] - cols["x0"]), ("extent (vertical)", a[3], cols[v + "1"] - cols[v + "0"])):
        CHECK_EQ("every segment is drawn from start to end: " + lab, np.asarray(got), want)
    CHECK("segments are drawn to scale", bool(k["scale"] == 1) and k["units"] == "x" and k.get("angles", "uv") in ("uv", "xy"))
    CHECK("the axes have equal scale", len([x for x in MPL("set_aspect") if x[2] and x[2][0] == "equal"]) > 0)
    if own:
        CHECK_EQ("ray width", k["width"], 0.5)
    if color == "wavelength":
        CHECK_EQ("rays have the color of their wavelength", np.asarray(k["color"]), wavelength_to_rgb(cols["wavelength"]))
    elif color == "source" and many > 2:
        paint = np.asarray(k["color"])
        one, there = [], []
        for j in range(many):
            mine = AND(cols["id"] >= j * n, cols["id"] < (j + 1) * n)
            hi = [np.max(np.where(mine, paint[:, c], -1)) for c in range(3)]
            lo = [np.min(np.where(mine, paint[:, c], 9)) for c in range(3)]
            there.append(np.any(mine))
            CHECK_EQ("rays of one source have one color (source %%d)" %% j, np.array(hi), np.array(lo), where=np.any(mine))
            one.append(hi)
        for j in range(many):
            for i in range(j):
                same = AND(*[np.abs(one[i][c] - one[j][c]) < 1e-9 for c in range(3)])
                CHECK_EQ("different sources have different colors (%%d, %%d)" %% (i, j), AND(same, there[i], there[j]), False)
    elif color == "source":
        two = wavelength_to_rgb(np.array([0.45, 0.65]))
        want = np.where(cols["id"] < n, two[0].reshape(3, 1), two[1].reshape(3, 1))
        CHECK_EQ("rays of one source have one color", np.asarray(k["color"]), want.T)
    tr.calculate_source_ids()
    CHECK_EQ("source ids name the source each ray came from", np.asarray(tr.get_results()["source_id"]), np.floor(cols["id"] / n))
''' % (("choice:-1.5,-0.25,0.5,1.25,2.5,inf", "choice:-1.75,0.375,1.125,3.5,inf,inf"),)

COLOR = ORACLE + '''
from pyrayt.utils import wavelength_to_rgb, lensmakers_equation


def spectrum(w, gamma):
    """piecewise linear spectrum (knots in microns), dimmed towards both ends of the visible range"""
    c = np.minimum(np.maximum(w, 0.38), 0.75)
    dim = np.where(c < 0.44, 0.3 + 0.7 * (c - 0.38) / 0.06, np.where(c >= 0.645, 0.3 + 0.7 * (0.75 - c) / 0.105, 1.))
    r = np.where(c < 0.44, (0.44 - c) / 0.06 * dim, np.where(c < 0.51, 0., np.where(c < 0.58, (c - 0.51) / 0.07, np.where(c < 0.645, 1., dim))))
    g = np.where(c < 0.44, 0., np.where(c < 0.49, (c - 0.44) / 0.05, np.where(c < 0.58, 1., np.where(c < 0.645, (0.645 - c) / 0.065, 0.))))
    b = np.where(c < 0.44, dim, np.where(c < 0.49, 1., np.where(c < 0.51, (0.51 - c) / 0.02, 0.)))
    return [np.abs(v) ** gamma for v in (r, g, b)]


def main(how):
    n = LANE("n")
    w = LVAR("w", n, 0.3, 0.85, (0.05, 1.55, 12, 600), 0.15)
    if how == "knots":
        w = LCHOICE("w", n, (0.3, 0.38, 0.41, 0.44, 0.46, 0.49, 0.5, 0.51, 0.55, 0.58, 0.6, 0.645, 0.7, 0.75, 0.9))
    gamma = 0.8
    sn = SNAP(w, "wavelengths")
    if how == "gamma":
        gamma = SYM("gamma", 0.3, 2)
        c = wavelength_to_rgb(w, gamma)
    elif how == "single":
        one = SYM("one", 0.3, 0.85, (0.05, 1.55, 12, 600), 0.15)
        c = wavelength_to_rgb(one)
        CHECK_EQ("one wavelength gives one color", np.array(c.shape), np.array([3]))
        for i, v in enumerate(spectrum(one, gamma)):
            CHECK_EQ("color of a single wavelength (channel %d)" % i, c[i], v, atol=1e-7)
        return
    else:
        c = wavelength_to_rgb(w)
    UNCHANGED("the wavelengths passed in are not changed", sn)
    CHECK_EQ("one color per wavelength", c.shape[0], n)
    for i, v in enumerate(spectrum(w, gamma)):
        CHECK_EQ("color of each wavelength (channel %d)" % i, c[:, i], v, atol=1e-7)
        CHECK("channels stay between 0 and 1 (channel %d)" % i, AND(c[:, i] >= 0, c[:, i] <= 1))
    below = wavelength_to_rgb(np.minimum(w, 0.38))
    CHECK_EQ("wavelengths below the visible range have the color of its limit", below, wavelength_to_rgb(np.minimum(w, 0.38) * 0 + 0.38))
    above = wavelength_to_rgb(np.maximum(w, 0.75))
    CHECK_EQ("wavelengths above the visible range have the color of its limit", above, wavelength_to_rgb(np.maximum(w, 0.75) * 0 + 0.75))
'''

MAKERS = ORACLE + '''
from pyrayt.utils import lensmakers_equation


def main(arg):
    a, b = arg
    r1 = {"+": SYM("r1", 1, 9, (0.02, 300, 20000), 0.3), "-": -SYM("r1", 1, 9, (0.02, 300, 20000), 0.3), "inf": np.inf}[a]
    r2 = {"+": SYM("r2", 10, 19, (0.5, 700, 50000), 0.3), "-": -SYM("r2", 10, 19, (0.5, 700, 50000), 0.3), "inf": np.inf}[b]
    n, t = SYM("n", 1.3, 2.2, (1.01, 4), 0.2), SYM("t", 0.1, 1, (0, 1e-3, 8), 0.3)
    c1 = 0 if a == "inf" else 1 / r1
    c2 = 0 if b == "inf" else 1 / r2
    CHECK_EQ("focal length of a thick lens", lensmakers_equation(r1, r2, n, t), 1 / ((n - 1) * (c1 - c2 + (n - 1) * t * c1 * c2 / n)))
    # the same from the refraction of a paraxial ray at the two faces
    p1, p2 = (n - 1) * c1, (1 - n) * c2
    CHECK_EQ("focal length from the powers of the two faces", 1 / lensmakers_equation(r1, r2, n, t), p1 + p2 - p1 * p2 * t / n)
    CHECK_EQ("named arguments", lensmakers_equation(thickness=t, n_lens=n, r2=r2, r1=r1), lensmakers_equation(r1, r2, n, t))
'''

# before any run there is nothing but the components to show; a run without hits shows no segments
UNTRACED = "import matplotlib.pyplot as plt\n" + ORACLE + '''
def main(arg):
    view, color, how = arg
    n = LANE("n")
    comp = [Stub("c0", ("choice:0.45,0.8,2.7,inf",), pyrayt.materials.mirror)]
    tr = pyrayt.RayTracer([Src("s")], comp, rays_per_source=n)
    drawn = []
    cg.renderers.draw = lambda *a, **k: drawn.append((a, k))
    if hasattr(pyrayt._pyrayt, "draw"):
        pyrayt._pyrayt.draw = cg.renderers.draw
    kw = {"color_function": color} if color else {}
    sn = SNAP([comp, tr.get_results()], "components and results")
    tr.show(view, resolution=12, **kw)
    UNCHANGED("showing results changes neither them nor the components", sn)
    CHECK("the components are drawn once", len(drawn) == 1)
    CHECK("without a run no segments are drawn", len(MPL("quiver")) == 0)
    CHECK("the plot is displayed", len(MPL("show")) == 1)
    CHECK_EQ("options are passed on to the drawing of the components", np.array(drawn[0][1]["resolution"]), 12)
'''

# colors and the materials used for pictures
PAINTS = REN + '''
colors = cg.materials.color
NAMED = {"WHITE": (1, 1, 1), "BLACK": (0, 0, 0), "RED": (1, 0, 0), "GREEN": (0, 1, 0), "BLUE": (0, 0, 1), "YELLOW": (1, 1, 0), "ORANGE": (1, 0.5, 0)}


def fields(label, c, want):
    CHECK_EQ(label, np.array([c.r, c.g, c.b, c.a]), np.array(want))
    CHECK_EQ(label + " (as an array)", np.asarray(c), np.array(want))


def main(what):
    v = [SYM("c%d" % i, 0, 1) for i in range(4)]
    u = [SYM("u%d" % i, 0, 1) for i in range(4)]
    if what == "fields":
        c = colors.RGBAColor(v[0], v[1], v[2], v[3])
        fields("the channels of a color", c, v)
        fields("the channels of a color by name", colors.RGBAColor(a=v[3], b=v[2], r=v[0], g=v[1]), v)
        fields("a color without transparency is opaque", colors.RGBAColor(v[0], v[1], v[2]), v[:3] + [1])
        fields("a color without channels is black", colors.RGBAColor(), [0, 0, 0, 1])
        want = list(v)
        for i, nm in enumerate("rgba"):
            setattr(c, nm, u[i])
            want[i] = u[i]
            fields("writing channel %s changes nothing else" % nm, c, want)
        for i in range(4):
            c[i] = v[i]
        fields("writing by position", c, v)
        fields("a new color is not affected by an earlier one", colors.RGBAColor(), [0, 0, 0, 1])
    elif what == "named":
        for nm, want in NAMED.items():
            fields("the color %s" % nm, getattr(colors, nm), list(want) + [1])
            m = getattr(gooch, nm)
            fields("the base color of the material %s" % nm, m.base_color, list(want) + [1])
            CHECK("the material %s can be shaded" % nm, m.alpha >= 0 and m.alpha <= 1 and m.beta >= 0 and m.beta <= 1)
        base = colors.RGBAColor(v[0], v[1], v[2])
        m = gooch.GoochMaterial(base)
        n = gooch.GoochMaterial()
        fields("a material has the base color it is given", m.base_color, v[:3] + [1])
        fields("a default material is black", n.base_color, [0, 0, 0, 1])
        fields("a default warm tone is black", m.warm_color, [0, 0, 0, 1])
        fields("a default cool tone is black", m.cool_color, [0, 0, 0, 1])
        n.base_color.r = u[0]
        m.warm_color.g = u[1]
        m.cool_color[2] = u[2]
        k = gooch.GoochMaterial()
        for nm in ("base_color", "warm_color", "cool_color"):
            fields("editing the colors of one material does not affect another (%s)" % nm, getattr(k, nm), [0, 0, 0, 1])
    else:
        m = paint("m")
        n = LANE("n")
        one = what in ("one point", "one point two lights")
        rays = np.zeros((2, 4)) if one else np.zeros((2, 4, n))
        nrm = np.zeros(4) if one else np.zeros((4, n))
        for i in range(3):
            rays[0, i] = SYM("p%d" % i) if one else LVAR("p%d" % i, n)
            rays[1, i] = SYM("d%d" % i) if one else LVAR("d%d" % i, n)
        a, b = (SYM("na", -3, 3), SYM("nb", -3, 3)) if one else (LVAR("na", n, -3, 3), LVAR("nb", n, -3, 3))
        nrm[0], nrm[1], nrm[2] = np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)
        rays[0, 3] = 1
        ls = [[SYM("l%d%d" % (j, i), 3, 9, (300, -500), 0.1) for i in range(3)] + [1] for j in range({"one point two lights": 2, "two lights": 2, "three lights": 3, "nine lights": 9}.get(what, 1))]
        light = np.array(ls[0]) if len(ls) == 1 else np.array(ls).T
        if what == "ray point":
            light = cg.Point(ls[0][0], ls[0][1], ls[0][2])
        sn = SNAP([rays, nrm, light, m], "arguments")
        got = m.shade(rays, nrm, light)
        UNCHANGED("shading leaves the rays, normals, lights and the material alone", sn)
        if one:
            want = np.asarray(gooch_shade(m, rays[0].reshape(4, 1), nrm.reshape(4, 1), ls))
        else:
            want = gooch_shade(m, rays[0], nrm, ls)
        CHECK_EQ("a shade blends the two tones by the angle to the light", np.asarray(got), want)
        again = m.shade(rays, nrm, light)
        CHECK("shades are the caller's own", not SHARES(again, got) and not SHARES(got, rays))
        # each tone is a mix of the colors the material has now
        m.alpha, m.beta = SYM("al2", 0, 1), SYM("be2", 0, 1)
        m.base_color = colors.RGBAColor(v[0], v[1], v[2], v[3])
        want = gooch_shade(m, rays[0].reshape(4, 1) if one else rays[0], nrm.reshape(4, 1) if one else nrm, ls)
        CHECK_EQ("colors changed later are used", np.asarray(m.shade(rays, nrm, light)), want)
'''
