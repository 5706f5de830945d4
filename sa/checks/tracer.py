"""Harnesses about the sequential ray tracer (what is recorded, for which rays, and how the rays are chained)."""
from .common import STUBS, FAM

ORACLE = STUBS + '''
FAM = %r


def build(ncomp, intensity=None, index=True):
    """components (ncomp: how many, or the number of surfaces in each of them)"""
    if ncomp == "rare":
        # a surface that hardly any ray meets, in front of one that most of them meet
        return [Stub("rare", ("choice:0.05" + ",inf" * 700,), Mat("mr", index=index, intensity=intensity)), Stub("c0", FAM[0], Mat("m0", index=index, intensity=intensity))]
    sizes = [1] * ncomp if isinstance(ncomp, int) else list(ncomp)
    leaves = [Stub("c%%d" %% i, FAM[i], Mat("m%%d" %% i, index=index, intensity=intensity)) for i in range(sum(sizes))]
    comps = []
    for k in sizes:
        c = leaves[0]
        for l in leaves[1:k]:
            c = Pair(c, l)
        comps.append(c)
        leaves = leaves[k:]
    return comps


def surfaces(comps):
    return [s for c in comps for i, s in c.surface_ids]


def start_rays(sources, n):
    """what the sources emit, as plain arrays; ids number the rays consecutively over all sources"""
    sets = [s.generate_rays(n) for s in sources]
    cols = np.concatenate([np.asarray(s) for s in sets], axis=-1)
    return cols[:4], cols[4:8], cols[9], cols[10], cols[11]


class Spec:
    """definition of one segment for every ray of a generation"""
    least = 0.1     # weaker rays are not followed any further

    def __init__(self, comps, pos, dirs, power, wl, ri, ids, gen):
        self.comps, self.pos, self.dirs, self.power, self.wl, self.ri, self.ids, self.gen = comps, pos, dirs, power, wl, ri, ids, gen
        best = np.full(pos.shape[1], np.inf)
        surf = np.full(pos.shape[1], -1)
        which = np.full(pos.shape[1], -1)
        rays = np.stack((pos, dirs), axis=0)
        for k, c in enumerate(comps):
            h = c.primitive.intersect(rays)
            h = np.where(h > 0, h, np.inf)
            m = np.min(h, axis=0)
            closer = m < best
            best = np.where(closer, m, best)
            surf = np.where(closer, c.get_id(), surf)
            which = np.where(closer, k, which)
        self.best, self.surf, self.which = best, surf, which
        alive_in = np.sqrt(np.sum(dirs[:3] ** 2, axis=0)) > 1e-6
        self.live = AND(best < np.inf, alive_in, power >= self.least)

    def filtered(self):
        m = self.live
        f = Spec.__new__(Spec)
        f.comps = self.comps
        f.pos, f.dirs = self.pos[:, m], self.dirs[:, m]
        f.power, f.wl, f.ri, f.ids, f.gen = self.power[m], self.wl[m], self.ri[m], self.ids[m], self.gen
        f.best, f.surf, f.which = self.best[m], self.surf[m], self.which[m]
        f.end = f.pos + f.best * f.dirs
        return f

    def advance(self, off):
        """state of the recorded rays after the interaction with the surface they hit (self is filtered)"""
        nd, nr, npow = self.dirs, self.ri, self.power
        for k, c in enumerate(self.comps):
            here = self.which == k
            rs = pyrayt.RaySet(self.pos.shape[1])
            rs.rays[0] = self.end
            rs.rays[1] = self.dirs
            rs.wavelength = self.wl
            rs.index = self.ri
            rs.intensity = self.power
            out = c.material.trace(c, rs)
            nd = np.where(here, np.asarray(out.rays[1]), nd)
            nr = np.where(here, np.asarray(out.index), nr)
            npow = np.where(here, np.asarray(out.intensity), npow)
        return Spec(self.comps, self.end + off * nd, nd, npow, self.wl, nr, self.ids, self.gen + 1)
''' % (FAM,)

TRACE = ORACLE + '''
COLS = ("generation", "intensity", "wavelength", "index", "id", "surface", "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt")


def expected(spec, limit, off):
    gens = []
    for g in range(limit):
        f = spec.filtered()
        gens.append(f)
        if g + 1 < limit:
            spec = f.advance(off)
    def cat(get):
        return np.concatenate([get(f) for f in gens])
    e = {
        "generation": cat(lambda f: np.full(f.pos.shape[1], f.gen)), "intensity": cat(lambda f: f.power), "wavelength": cat(lambda f: f.wl),
        "index": cat(lambda f: f.ri), "id": cat(lambda f: f.ids), "surface": cat(lambda f: f.surf),
    }
    for i, a in enumerate("xyz"):
        e[a + "0"] = cat(lambda f: f.pos[i])
        e[a + "1"] = cat(lambda f: f.end[i])
        e[a + "_tilt"] = cat(lambda f: (f.dirs[:3] / np.linalg.norm(f.dirs[:3], axis=0))[i])
    return e


def main(arg):
    ncomp, nsrc, limit, intensity = arg[0], arg[1], arg[2], arg[3]
    if len(arg) > 6:
        LONG_SESSION(arg[6])
    n = LANE("r")
    comps = build(ncomp, intensity)
    sources = [Src("s%d" % i, arg[4]) for i in range(nsrc)]
    tracer = pyrayt.RayTracer(sources, comps, rays_per_source=n, generation_limit=limit)
    if len(arg) > 5 and arg[5]:
        tracer.ray_intensity_threshold = arg[5]
        Spec.least = arg[5]
    res = tracer.trace()
    CHECK("returned frame is the stored result", SAMEOBJ(res, tracer.get_results()))
    pos, dirs, power, wl, ri = start_rays(sources, n)
    ids = np.arange(pos.shape[1])
    e = expected(Spec(surfaces(comps), pos, dirs, power, wl, ri, ids, 0), limit, pyrayt.RayTracer.ray_offset_value)
    CHECK_EQ("one row per segment, numbered from 0", np.asarray(res.index), np.arange(len(res)))
    for c in COLS:
        CHECK_EQ("column " + c, np.asarray(res[c]), e[c], rtol=1e-9, atol=1e-9)
'''

INDEPENDENT = ORACLE + '''
def main(arg):
    ncomp, limit, intensity = arg[0], arg[1], arg[2]
    n = LANE("r")
    comps = build(ncomp, intensity)
    tracer = pyrayt.RayTracer([Src("s", arg[3])], comps, rays_per_source=n, generation_limit=limit)
    res = tracer.trace()
    gen = np.asarray(res["generation"])
    for g in range(limit):
        rows = gen == g
        for c in ("intensity", "wavelength", "index", "surface", "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt"):
            RECORD("generation %d %s of a ray does not depend on the other rays" % (g, c), np.asarray(res[c])[rows])
'''

OPTICS_INDEPENDENT = STUBS + '''
def mk(which):
    m = {"mirror": pyrayt.materials.mirror, "absorber": pyrayt.materials.absorber, "glass": pyrayt.materials.BasicRefractor(SYM("n2", 1.1, 2)),
         "BK7": pyrayt.materials.glass["BK7"]}
    return m[which]


def main(arg):
    """the library's own surfaces and materials, one interaction: what happens to a ray does not depend on its companions"""
    kind, mat = arg[0], arg[1]
    n = LANE("r")
    m = mk(mat)
    if kind == "sphere":
        c = cg.Sphere(1.0, material=m)
    elif kind == "plane":
        c = cg.XYPlane(3., 2., material=m)
    elif kind == "cylinder":
        c = cg.Cylinder(1.0, -1., 1., material=m)
    elif kind == "paraboloid":
        c = cg.Paraboloid(1.0, 2.0, material=m)
    elif kind == "cuboid":
        c = cg.Cuboid((-1, -1, -1), (1, 1, 1), material=m)
    elif kind == "csg":
        c = cg.csg.difference(cg.Sphere(1.0, material=m), cg.Cuboid((0, -1, -1), (2, 1, 1), material=m))
    else:
        c = cg.csg.intersect(cg.Sphere(1.0, material=m), cg.Cylinder(0.5, -2, 2, material=m))
    tracer = pyrayt.RayTracer([Src("s")], [c], rays_per_source=n, generation_limit=arg[2])
    res = tracer.trace()
    gen = np.asarray(res["generation"])
    for g in range(arg[2]):
        rows = gen == g
        for col in ("index", "surface", "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt"):
            RECORD("generation %d %s of a ray does not depend on the other rays" % (g, col), np.asarray(res[col])[rows])
'''

REPEAT = ORACLE + '''
class Kept(Src):
    """hands out one and the same ray set whenever it is asked"""
    rays = None

    def generate_rays(self, n_rays):
        if self.rays is None:
            self.rays = super().generate_rays(n_rays)
            self.rays.id = LVAR(self.name + "id", n_rays)
            self.rays.generation = LVAR(self.name + "gen", n_rays)
        return self.rays


def main(arg):
    ncomp, limit, which = arg
    n = LANE("r")
    comps = build(ncomp)
    sources = {"two": lambda: [Src("s0"), Src("s1")], "one": lambda: [Src("s0")], "kept": lambda: [Kept("s0")], "kept two": lambda: [Kept("s0"), Kept("s1")]}[which]()
    if "kept" in which:
        for s in sources:
            s.generate_rays(n)
    nsrc = len(sources)
    tracer = pyrayt.RayTracer(sources, comps, rays_per_source=n, generation_limit=limit)
    s_comps, s_lists = SNAP(comps, "components"), SNAP(sources, "sources")
    first = tracer.trace()
    cols = [np.asarray(first[c]).copy() for c in first.columns]
    names = list(first.columns)
    UNCHANGED("tracing leaves the components as they were", s_comps, ("components[0].material.calls", "components[1].material.calls", "components[0].calls"))
    UNCHANGED("tracing leaves the sources as they were", s_lists, tuple(["sources[%d].asked" % i for i in range(nsrc)]))
    CHECK("the caller's list of components is not changed", len(comps) == ncomp)
    CHECK("the caller's list of sources is not changed", len(sources) == nsrc)
    rows = len(first)
    kept = [np.asarray(first[c]) for c in names]
    second = tracer.trace()
    CHECK("the second trace has the same columns", list(second.columns) == names)
    CHECK_EQ("results handed out earlier keep their length", len(first), rows)
    for c, a in zip(names, cols):
        CHECK_EQ("the table handed out earlier is not changed: " + c, np.asarray(first[c]), a)
    for c, a, k in zip(names, cols, kept):
        CHECK_EQ("tracing again gives the same " + c, np.asarray(second[c]), a)
        CHECK_EQ("results handed out earlier are not changed: " + c, k, a)
    other = pyrayt.RayTracer(sources, comps, rays_per_source=n, generation_limit=limit).trace()
    for c, a in zip(names, cols):
        CHECK_EQ("another tracer of the same system gives the same " + c, np.asarray(other[c]), a)
'''

CONFIG = ORACLE + '''
def columns(res):
    return [(c, np.asarray(res[c])) for c in ("generation", "id", "surface", "x0", "y0", "z0", "x1", "y1", "z1", "index")]


def same(label, res, ref):
    for (c, x), (d, y) in zip(columns(res), columns(ref)):
        CHECK_EQ("%s: %s" % (label, c), x, y)


def main(arg):
    what = arg
    n = LANE("r")
    m = LANE("q")
    comps = build(3)
    a, b, c = comps
    s = Src("s0")
    T = pyrayt.RayTracer
    if what == "load":
        t = T([s], [a], rays_per_source=n, generation_limit=2)
        t.load_components([b, c])
        same("newly loaded components are traced", t.trace(), T([s], [b, c], rays_per_source=n, generation_limit=2).trace())
    elif what == "load-after-trace":
        t = T([s], [a], rays_per_source=n, generation_limit=2)
        t.trace()
        t.load_components(b)
        same("a single newly loaded component is traced", t.trace(), T([s], [b], rays_per_source=n, generation_limit=2).trace())
    elif what == "mutate":
        cl = [a, b]
        t = T([s], cl, rays_per_source=n, generation_limit=2)
        t.trace()
        cl.append(c)
        cl.remove(a)
        same("components added to or removed from the caller's list are honoured", t.trace(), T([s], [b, c], rays_per_source=n, generation_limit=2).trace())
    elif what == "system":
        cl = [a, b]
        t = T([s], cl, rays_per_source=n, generation_limit=1)
        got = t.get_system()
        CHECK("the current components are returned", len(got) == 2 and SAMEOBJ(got[0], a) and SAMEOBJ(got[1], b))
        t.load_components((c,))
        got = t.get_system()
        CHECK("the current components are returned after loading others", len(got) == 1 and SAMEOBJ(got[0], c))
        t2 = T([s], c, rays_per_source=n)
        CHECK("a single component is wrapped", len(t2.get_system()) == 1 and SAMEOBJ(t2.get_system()[0], c))
    elif what == "moved":
        x, y, z = SYM("mx"), SYM("my"), SYM("mz")
        sp = cg.Sphere(1.0, material=pyrayt.materials.mirror)
        t = T([s], [sp, a], rays_per_source=n, generation_limit=1)
        t.trace()
        sp.move(x, y, z)
        r1 = t.trace()
        r2 = T([s], [sp, a], rays_per_source=n, generation_limit=1).trace()
        same("components moved after the tracer was built are traced at their new place", r1, r2)
        end = np.asarray(r1["surface"]) == sp.get_id()
        d2 = (np.asarray(r1["x1"]) - x) ** 2 + (np.asarray(r1["y1"]) - y) ** 2 + (np.asarray(r1["z1"]) - z) ** 2
        CHECK_EQ("rays recorded on a moved sphere end on it", d2, np.ones(d2.shape), where=end)
    elif what == "material":
        sp = cg.Sphere(1.0, material=pyrayt.materials.mirror)
        t = T([s], [sp], rays_per_source=n, generation_limit=2)
        t.trace()
        sp.material = pyrayt.materials.BasicRefractor(1.5)
        u = cg.Sphere(1.0, material=pyrayt.materials.BasicRefractor(1.5))
        r1, r2 = t.trace(), T([s], [u], rays_per_source=n, generation_limit=2).trace()
        for col in ("generation", "id", "x0", "y0", "x1", "y1", "index", "x_tilt", "z_tilt"):
            CHECK_EQ("a material assigned after construction is used: " + col, np.asarray(r1[col]), np.asarray(r2[col]))
    elif what == "limits":
        t = T([s], [a, b], rays_per_source=n, generation_limit=1)
        CHECK_EQ("rays per source getter", t.get_rays_per_source(), n)
        CHECK_EQ("generation limit getter", t.get_generation_limit(), 1)
        t.trace()
        t.set_generation_limit(2)
        CHECK_EQ("generation limit setter", t.get_generation_limit(), 2)
        same("the generation limit set last is used", t.trace(), T([s], [a, b], rays_per_source=n, generation_limit=2).trace())
        t.set_generation_limit(1)
        same("a lowered generation limit is used", t.trace(), T([s], [a, b], rays_per_source=n, generation_limit=1).trace())
        t.set_generation_limit(2)
        t.set_rays_per_source(m)
        CHECK_EQ("rays per source setter", t.get_rays_per_source(), m)
        r = t.trace()
        CHECK_EQ("every source is asked for the configured number of rays", s.asked, m)
        same("the ray count set last is used", r, T([s], [a, b], rays_per_source=m, generation_limit=2).trace())
    elif what == "single":
        same("a single source and component behave like one-element lists", T(s, a, rays_per_source=n, generation_limit=2).trace(),
             T([s], [a], rays_per_source=n, generation_limit=2).trace())
        t = T(cg.ObjectGroup([s]), cg.ObjectGroup([a, b]), rays_per_source=n, generation_limit=1)
        same("sources and components may be groups", t.trace(), T([s], [a, b], rays_per_source=n, generation_limit=1).trace())
        t.load_components(cg.ObjectGroup([b]))
        same("a newly loaded group is traced", t.trace(), T([s], [b], rays_per_source=n, generation_limit=1).trace())
        same("sources and components may be tuples", T((s,), (a, b), rays_per_source=n, generation_limit=1).trace(),
             T([s], [a, b], rays_per_source=n, generation_limit=1).trace())
    elif what == "reset":
        t = T([s], [a, b], rays_per_source=n, generation_limit=1)
        t.trace()
        t.reset()
        CHECK_EQ("resetting discards the results", len(t.get_results()), 0)
        same("a reset tracer traces like a new one", t.trace(), T([s], [a, b], rays_per_source=n, generation_limit=1).trace())
    elif what in ("threshold", "offset"):
        name = "ray_intensity_threshold" if what == "threshold" else "ray_offset_value"
        v = SYM("value", 50, 120, (100, 40)) if what == "threshold" else SYM("value", 1e-4, 0.3)
        t, u = T([s], [a, b], rays_per_source=n, generation_limit=2), T([s], [a, b], rays_per_source=n, generation_limit=2)
        r0 = u.trace()
        setattr(t, name, v)
        CHECK_EQ("the value set on a tracer can be read back", getattr(t, name), v)
        r1 = t.trace()
        same("a value set on one tracer does not reach others", u.trace(), r0)
        setattr(T, name, v)
        same("a value set for one tracer is used like one set for all", r1, T([s], [a, b], rays_per_source=n, generation_limit=2).trace())
        if what == "threshold":
            CHECK_EQ("no ray below the threshold is recorded", np.asarray(r1["intensity"]) >= v, np.ones(len(r1)) > 0)
        setattr(t, name, getattr(u, name) / 2)
        setattr(T, name, getattr(t, name))
        same("a value changed between two runs is used", t.trace(), T([s], [a, b], rays_per_source=n, generation_limit=2).trace())
    elif what == "many runs":
        t = T([s], [a], rays_per_source=n, generation_limit=2)
        ref = T([s], [a], rays_per_source=n, generation_limit=2).trace()
        for k in range(7):
            r = t.trace()
            if k in (2, 4, 6):
                same("run number %d of a tracer gives what a new one gives" % (k + 1), r, ref)
        CHECK_EQ("the generation limit stays what it was", t.get_generation_limit(), 2)
        CHECK_EQ("the ray count stays what it was", t.get_rays_per_source(), n)
    elif what == "settings":
        t = T([s], [a])
        for k in (1, 2, 11, 257, 1000, 4099, 70000, 200000, 30000000):
            CHECK_EQ("any number of rays can be asked for", T([s], [a], rays_per_source=k).get_rays_per_source(), k)
            CHECK_EQ("any number of generations can be asked for", T([s], [a], generation_limit=k).get_generation_limit(), k)
            t.set_rays_per_source(k)
            CHECK_EQ("any number of rays can be set", t.get_rays_per_source(), k)
            t.set_generation_limit(k)
            CHECK_EQ("any number of generations can be set", t.get_generation_limit(), k)
            CHECK_EQ("setting the generation limit leaves the ray count", t.get_rays_per_source(), k)
    elif what == "mutable sources":
        sl = [s]
        t = T(sl, [a, b], rays_per_source=n, generation_limit=1)
        t.trace()
        s2 = Src("s1")
        sl.append(s2)
        same("sources added to the caller's list are honoured", t.trace(), T([s, s2], [a, b], rays_per_source=n, generation_limit=1).trace())
'''
CONFIGS = ["load", "load-after-trace", "mutate", "system", "moved", "material", "limits", "single", "reset", "mutable sources", "threshold", "offset", "many runs", "settings"]

# a system moved as a whole behaves as it did where it stood
RIGID = STUBS + '''
def system(what):
    pc = pyrayt.components
    glass = pyrayt.materials.BasicRefractor(SYM("k", 1.2, 2.))
    if what == "lens":
        src = pc.ConeOfRays(SYM("ca", 2, 30)).move_y(SYM("off", 0.03, 0.2))    # (on the axis the ends of the trimming cylinder touch the spheres)
        return src, [pc.biconvex_lens(4., 5., 0.4, aperture=1.5, material=glass).move_x(2.)]
    if what == "thick lens":
        src = pc.LineOfRays(SYM("sp", 0.2, 1.9)).move_z(SYM("off", 0.03, 0.2))
        return src, [pc.thick_lens(-6., 5., 0.4, aperture=(1.6, 1.4), material=pyrayt.materials.SellmeierRefractor(b1=SYM("b1", 0.5, 1.5), c1=SYM("c1", 0.001, 0.01))).move_x(2.), pc.baffle((5., 5.)).move_x(4.)]
    if what == "sphere":
        return pc.LineOfRays(SYM("sp", 0.2, 1.9)), [cg.Sphere(1.0, material=glass).move_x(3.)]
    if what == "mirrors":
        src = pc.CircleOfRays(SYM("sp", 0.2, 1.))
        return src, [pc.spherical_mirror(6., 0.3, aperture=2.).move_x(3.), pc.plane_mirror(0.2, aperture=(2., 3.)).rotate_y(SYM("tilt", 10, 40)).move_x(-2.)]
    if what == "parabola":
        src = pc.LineOfRays(SYM("sp", 0.2, 0.9)).move_y(SYM("off", 0.03, 0.2)).rotate_z(180).move_x(3.)
        return src, [pc.parabolic_mirror(2., 0.3, aperture=2.), pc.aperture(1.7, 0.3).move_x(1.)]
    if what == "prism":
        src = pc.WedgeOfRays(SYM("ca", 2, 20)).move_x(-3.)
        return src, [pc.equilateral_prism(1.5, 2.), pc.baffle((5., 5.)).move_x(3.)]
    if what == "plane":
        src = pc.ConeOfRays(SYM("ca", 2, 20))
        return src, [cg.XYPlane(3., 4., material=glass).rotate_y(SYM("tilt", 60, 85)).move_x(2.), cg.XYPlane(4., 3., material=pyrayt.materials.mirror).rotate_y(90).move_x(3.)]
    if what == "group":
        src = pc.WedgeOfRays(SYM("ca", 2, 20))
        return src, [cg.csg.union(cg.Sphere(0.8, material=glass), cg.Cylinder(0.5, -1., 0.9, material=glass).rotate_y(90)).scale_y(0.7).move_x(SYM("at", 2, 4))]
    if what == "nested":
        src = pc.ConeOfRays(SYM("ca", 2, 20))
        ball = cg.csg.difference(cg.Sphere(1.0, material=glass), cg.Sphere(0.5, material=glass).move_y(0.6))
        return src, [cg.csg.intersect(ball, cg.Cuboid((-2., -0.9, -0.7), (2., 1.3, 0.8), material=glass)).move_x(2.5)]
    src = pc.LineOfRays(SYM("sp", 0.2, 1.9))
    return src, [cg.csg.difference(cg.Cuboid((-1., -1.2, -1.), (0.5, 1., 1.), material=glass).move_x(2.), cg.Cylinder(0.4, -2., 2., material=glass).move_x(1.8))]


def main(arg):
    what, limit, how = arg
    n = LANE("n")
    ax, ay, az = SYM("ax", -180, 180), SYM("ay", -180, 180), SYM("az", -180, 180)
    t = [SYM("t%d" % i, -4, 4, (60, -150), 0.1) for i in range(3)]
    k = SYM("enlarge", 0.5, 3, (20, 100), 0.2)
    s0, c0 = system(what)
    s1, c1 = system(what)
    probe = cg.world_objects.WorldObject()
    for o in [s1] + c1 + [probe]:
        if how == "moved":
            o.rotate_x(ax).rotate_y(ay).rotate_z(az).move(t[0], t[1], t[2])
        elif how == "shifted":
            o.move(t[0], t[1], t[2])
        elif how == "quarter":
            o.rotate_z(90).rotate_x(180)
        else:
            o.scale_all(k)
    M = probe.get_world_transform()
    f0 = pyrayt.RayTracer(s0, c0, rays_per_source=n, generation_limit=limit).trace()
    f1 = pyrayt.RayTracer(s1, c1, rays_per_source=n, generation_limit=limit).trace()
    for c in ("generation", "id", "intensity", "wavelength", "index"):
        CHECK_EQ("the same rays in the same order: " + c, np.asarray(f1[c]), np.asarray(f0[c]), rtol=1e-5, atol=1e-5)
    names = [i for c in c0 for i, s in c.surface_ids]
    moved = [i for c in c1 for i, s in c.surface_ids]
    same = np.asarray(f0["surface"]) * 0 - 1
    for a, b in zip(names, moved):
        same = np.where(np.asarray(f0["surface"]) == a, b, same)
    CHECK_EQ("the same surfaces are met", np.asarray(f1["surface"]), same)
    turn = M[:3, :3] / (k if how == "enlarged" else 1)
    for e in ("0", "1", "_tilt"):
        p = np.stack([np.asarray(f0[a + e]) for a in "xyz"])
        q = np.stack([np.asarray(f1[a + e]) for a in "xyz"])
        if e == "_tilt":
            CHECK_EQ("directions turn with the system", q, np.matmul(turn, p), rtol=1e-5, atol=1e-5)
        else:
            CHECK_EQ("segments move with the system (%s)" % {"0": "start", "1": "end"}[e], q, np.matmul(M[:3, :3], p) + M[:3, 3].reshape(3, 1), rtol=1e-5, atol=2e-5)
'''

LONG = ORACLE + '''
class Shuttle(TracerSurface):
    """a surface that is always met at one and the same distance"""
    surface = Prim

    def __init__(self, at, material):
        super().__init__(("shuttle", ("real",)), material)
        self.at = at

    def intersect(self, rays):
        n = rays.shape[-1]
        return np.full((1, n), self.at), np.full((1, n), self.get_id())


class Back(pyrayt.materials.TracableMaterial):
    """turns every ray round; after some interactions it takes their light"""
    def __init__(self, lives):
        super().__init__()
        self.lives = lives
        self.calls = 0

    def trace(self, surface, ray_set):
        self.calls += 1
        ray_set.rays[1] = -ray_set.rays[1]
        if self.lives and self.calls >= self.lives:
            ray_set.intensity = ray_set.intensity * 1e-6
        return ray_set


def main(arg):
    limit, lives = arg
    n = LANE("r")
    at = SYM("at", 0.5, 2)
    m = Back(lives)
    t = pyrayt.RayTracer([Src("s0", (100., 40.))], [Shuttle(at, m)], rays_per_source=n, generation_limit=limit)
    res = t.trace()
    many = lives if lives else limit
    CHECK_EQ("a trapped ray goes through as many interactions as the limit allows", len(res), many * n)
    CHECK_EQ("the interactions are numbered up to the limit", np.max(np.asarray(res["generation"])), many - 1)
    p, d, power, wl, ri = start_rays([Src("s0", (100., 40.))], n)
    first = np.asarray(res["generation"]) == 0
    last = np.asarray(res["generation"]) == many - 1
    for g in (1, 3, 7, 10, 12, 16, 20, 24, 33, 44, 65, 99, 127, 129):
        if g < many:
            CHECK_EQ("an interaction of every ray is recorded under its number: id", np.asarray(res["id"])[np.asarray(res["generation"]) == g], np.arange(n))
    CHECK_EQ("every ray makes its first interaction: id", np.asarray(res["id"])[first], np.arange(n))
    CHECK_EQ("every ray makes its last interaction: id", np.asarray(res["id"])[last], np.arange(n))
    CHECK_EQ("no interaction costs light: intensity", np.asarray(res["intensity"])[last], power)
'''
