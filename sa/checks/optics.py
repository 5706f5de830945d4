"""Harnesses about reflection, refraction, dispersion and what a material may write."""
from .world import PRE

OPT = PRE + '''
def vecs(tag, n, dim):
    """arbitrary vectors (dim rows; a fourth row is the homogeneous coordinate 0)"""
    v = np.zeros((dim, n))
    for i in range(3):
        v[i] = LVAR("%s%d" % (tag, i), n, -2, 2, (1, -1, 0.5), 0.1)
    return v


def units(tag, n, dim):
    u = LVAR(tag + "u", n, -3, 3, (0, 1.5707963267948966, -1.5707963267948966), 0.15)
    w = LVAR(tag + "w", n, -3, 3, (0, 1.5707963267948966, 2.356194490192345), 0.15)
    v = np.zeros((dim, n))
    v[0], v[1], v[2] = np.sin(u) * np.cos(w), np.sin(u) * np.sin(w), np.cos(u)
    return v


def single(tag, dim, unit=False):
    v = np.zeros(dim)
    if unit:
        a, b = SYM(tag + "u", -3, 3), SYM(tag + "w", -3, 3)
        v[0], v[1], v[2] = np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)
    else:
        for i in range(3):
            v[i] = SYM("%s%d" % (tag, i))
    return v


def snell(d, nrm, n1, n2, n_out):
    """vector form of the law of refraction -> direction, index, and where the case distinction is sharp"""
    d = d / np.sqrt(np.sum(d * d, axis=0))
    c = np.sum(d * nrm, axis=0)
    other = np.where(c > 0, n_out, n2)
    tang = (n1 / other) * (d - c * nrm)
    s2 = np.sum(tang * tang, axis=0)
    passes = s2 < 1
    through = tang + np.where(c > 0, 1., -1.) * np.sqrt(np.maximum(1 - s2, 0)) * nrm
    back = d - 2 * c * nrm
    sharp = AND(np.abs(c) > 1e-6, np.abs(s2 - 1) > 1e-6)
    return np.where(passes, through, back), np.where(passes, other, n1), sharp, passes
'''

REFLECT = OPT + '''
def main(dim):
    n = LANE("r")
    v, m = vecs("v", n, dim), units("m", n, dim)
    sv, sm = SNAP(v, "vectors"), SNAP(m, "normals")
    out = cg.reflect(v, m)
    UNCHANGED("the vectors passed in are not changed", sv)
    UNCHANGED("the normals passed in are not changed", sm)
    dot = np.sum(v * m, axis=0)
    CHECK_EQ("the normal component is reversed", np.sum(out * m, axis=0), -dot)
    CHECK_EQ("the tangential component is kept", out - np.sum(out * m, axis=0) * m, v - dot * m)
    CHECK_EQ("the length is kept", np.sum(out * out, axis=0), np.sum(v * v, axis=0))
    CHECK_EQ("reflecting twice gives the vector back", cg.reflect(out, m), v)
    CHECK_EQ("the side the normal points to is irrelevant", cg.reflect(v, -m), out)
    one = single("s", dim, True)
    tiled = np.zeros((dim, n))
    for i in range(dim):
        tiled[i] = one[i]
    CHECK_EQ("one normal for all vectors", cg.reflect(v, one), cg.reflect(v, tiled))
    x = single("x", dim)
    r = cg.reflect(x, one)
    CHECK_EQ("one vector and one normal", r, x - 2 * np.sum(x * one) * one)
'''

REFRACT = OPT + '''
def index(kind, tag, n):
    if kind == "array":
        return LVAR(tag, n, 1, 2.5, (1, 1.5, 4.6, 6), 0.3)
    return SYM(tag, 1, 2.5, (1, 1.5, 4.6, 6), 0.3)


def main(arg):
    dim, k1, k2, kg = arg
    n = LANE("r")
    v, m = vecs("v", n, dim), units("m", n, dim)
    n1, n2 = index(k1, "n1", n), index(k2, "n2", n)
    ng = 1 if kg is None else index(kg, "ng", n)
    d0 = v.copy()
    snaps = [(nm, SNAP(x, nm)) for nm, x in (("vectors", v), ("normals", m), ("first index", n1), ("second index", n2)) if hasattr(x, "shape")]
    out, ri = cg.refract(v, m, n1, n2) if kg is None else cg.refract(v, m, n1, n2, ng)
    for nm, s in snaps:
        UNCHANGED("the %s passed in are not changed" % nm, s)
    d, idx, sharp, passes = snell(d0, m, n1, n2, ng)
    CHECK_EQ("outgoing direction obeys the law of refraction (or total reflection)", out, d, where=sharp)
    CHECK_EQ("index after the interface", ri + np.zeros(n), idx + np.zeros(n), where=sharp)
    CHECK_EQ("outgoing direction is a unit vector", np.sum(out * out, axis=0), np.ones(n))
    # reversibility: sending the refracted ray back returns the incoming direction
    inc = d0 / np.sqrt(np.sum(d0 * d0, axis=0))
    c = np.sum(inc * m, axis=0)
    back, bi = cg.refract(-out, m, ri + np.zeros(n), n1 + np.zeros(n), n1 + np.zeros(n))
    CHECK_EQ("the light path is reversible", back, -inc, where=AND(sharp, passes), rtol=1e-5, atol=1e-5)
    CHECK_EQ("reversed light regains the first index", bi, n1 + np.zeros(n), where=AND(sharp, passes))
'''

DISPERSION = OPT + '''
def main(which):
    n = LANE("r")
    wl = LVAR("wl", n, 0.3, 2.3, (0.38, 0.55, 0.75, 0.26, 3.3, 5, 7.5, 15, 40), 0.25)
    w0 = SYM("w0", 0.3, 2.3, (0.38, 0.55, 0.75, 0.26, 3.3, 5, 7.5, 15, 40), 0.35)
    two = np.array([[SYM("wa", 0.35, 1.2), w0], [SYM("wb", 0.35, 1.2), 0.5893]])
    if which == "basic":
        k = SYM("k", 1, 3)
        g = pyrayt.materials.BasicRefractor(k)
        law = lambda w: k + 0 * w
    else:
        b = [SYM("b%d" % i, 0.1, 1.5) for i in (1, 2, 3)]
        c = [SYM("c1", 0.001, 0.012), SYM("c2", 0.01, 0.06), SYM("c3", 90, 150)]
        if which == "keywords":
            g = pyrayt.materials.SellmeierRefractor(c3=c[2], b1=b[0], c1=c[0], b3=b[2], b2=b[1], c2=c[1])
        elif which == "changed":
            g = pyrayt.materials.SellmeierRefractor(1.0, 0.2, 0.9, 0.006, 0.02, 101.)
            g.abbe()
            g.index_at(0.5)
            g.b1, g.b2, g.b3, g.c1, g.c2, g.c3 = b + c
        else:
            g = pyrayt.materials.SellmeierRefractor(b[0], b[1], b[2], c[0], c[1], c[2])
        law = lambda w: np.sqrt(1 + sum(bi * w ** 2 / (w ** 2 - ci) for bi, ci in zip(b, c)))
    s = SNAP(wl, "wavelengths")
    CHECK_EQ("index for an array of wavelengths", g.index_at(wl), law(wl))
    UNCHANGED("the wavelengths passed in are not changed", s)
    CHECK_EQ("index for a single wavelength", g.index_at(w0), law(w0))
    CHECK("a single wavelength gives a single value", np.ndim(g.index_at(w0)) == 0)
    CHECK_EQ("index for a table of wavelengths", g.index_at(two), law(two))
    whole = np.array([1, 2, 1])
    CHECK_EQ("index for whole-number wavelengths", g.index_at(whole), law(np.array([1., 2., 1.])))
    CHECK_EQ("index for a whole-number wavelength", g.index_at(1), law(1.))
    got, same = g.index_at(wl), g.index_at(wl)
    CHECK("two index answers are independent", not SHARES(got, same))
    got[:] = 9
    CHECK_EQ("later index answers are not affected by editing an earlier one", g.index_at(wl), law(wl))
    if which != "basic":
        CHECK_EQ("Abbe number of the current coefficients", g.abbe(), (law(0.5893) - 1) / (law(0.4861) - law(0.6563)))
    # two glasses never share their model
    other = pyrayt.materials.BasicRefractor(SYM("k2", 1, 3)) if which == "basic" else pyrayt.materials.SellmeierRefractor(SYM("z1", 0.1, 1.5), c1=SYM("z2", 0.001, 0.01))
    CHECK_EQ("defining another glass leaves this one", g.index_at(w0), law(w0))
    if which == "basic":
        CHECK_EQ("the other glass has its own index", other.index_at(w0), SYM("k2", 1, 3))
    else:
        CHECK_EQ("the other glass has its own index", other.index_at(w0), np.sqrt(1 + SYM("z1", 0.1, 1.5) * w0 ** 2 / (w0 ** 2 - SYM("z2", 0.001, 0.01))))
        only = pyrayt.materials.SellmeierRefractor(b2=SYM("y1", 0.1, 1.5), c2=SYM("y2", 0.001, 0.01), c3=SYM("y3", 90, 150))
        CHECK_EQ("coefficients that are not given are zero", only.index_at(w0), np.sqrt(1 + SYM("y1", 0.1, 1.5) * w0 ** 2 / (w0 ** 2 - SYM("y2", 0.001, 0.01))))
        CHECK_EQ("a lone resonance without a wavelength is constant", pyrayt.materials.SellmeierRefractor(b3=SYM("y1", 0.1, 1.5)).index_at(w0), np.sqrt(1 + SYM("y1", 0.1, 1.5)))
        CHECK_EQ("the other glass has its own Abbe number (first glass unchanged)", g.abbe(), (law(0.5893) - 1) / (law(0.4861) - law(0.6563)))
'''

# published index at the sodium line and Abbe number (F', d/D, C) of the catalogued glasses
CATALOG = OPT + '''
SHEET = {"BK7": ((1.03961212, 0.231792344, 1.01046945), (0.00600069867, 0.0200179144, 103.560653)),
         "SF5": ((1.52481889, 0.187085527, 1.42729015), (0.011254756, 0.0588995392, 129.141675)),
         "SF2": ((1.40301821, 0.231767504, 0.939056586), (0.0105795466, 0.0493226978, 112.405955))}


def main():
    table = pyrayt.materials.glass
    for name, nd, v in (("ideal", 1.5, None), ("BK7", 1.5168, 64.17), ("SF5", 1.6727, 32.23), ("SF2", 1.6477, 33.83)):
        CHECK("glass %s is offered" % name, name in table)
        g = table[name]
        i = g.index_at(0.5893)
        # the maker's data sheet
        if name in SHEET:
            b, c = SHEET[name]
            w = SYM("w", 0.35, 2.3, (0.31, 2.4, 3.3), 0.2)
            CHECK_EQ("%s follows its published dispersion" % name, g.index_at(w), np.sqrt(1 + sum(bi * w ** 2 / (w ** 2 - ci) for bi, ci in zip(b, c))), rtol=2e-6)
        else:
            CHECK_EQ("%s has no dispersion" % name, g.index_at(SYM("w", 0.35, 2.3, (0.31, 2.4, 3.3), 0.2)), nd)
        CHECK("%s has its catalogue index" % name, bool(abs(i - nd) < 1e-3))
        if v is not None:
            CHECK("%s has its catalogue Abbe number" % name, bool(abs(g.abbe() - v) < 0.5))
'''

MATERIAL = OPT + '''
def surf(which, m):
    if which == "stub":
        return Stub("c", ("choice:0.5,1,inf",), m)
    a = affine("M")
    if which == "sphere":
        return cg.Sphere(1.5, material=m).transform(a)
    if which == "plane":
        return cg.XYPlane(3., 2., material=m).transform(a)
    if which == "flipped":
        s = cg.Sphere(1.5, material=m).transform(a)
        s.invert_normals()
        return s


def main(arg):
    which, mat = arg
    n = LANE("r")
    k = SYM("k", 1.05, 2.5)
    m = {"mirror": pyrayt.materials.mirror, "absorber": pyrayt.materials.absorber, "BK7": pyrayt.materials.glass["BK7"],
         "basic": pyrayt.materials.BasicRefractor(k)}[mat]
    s = surf(which, m)
    rs = Src("s").generate_rays(n)
    rs.id = LVAR("ident", n)
    rs.generation = LVAR("gen", n)
    before = rs.rays.copy()
    nrm = s.get_world_normals(rs.rays[0])
    keep = {"wavelength": rs.wavelength.copy(), "intensity": rs.intensity.copy(), "id": rs.id.copy(), "generation": rs.generation.copy()}
    ri = rs.index.copy()
    snap = SNAP([s, m], "surface and material")
    out = m.trace(s, rs)
    UNCHANGED("the surface and the material are not changed", snap)
    CHECK("the same ray set is returned, updated in place", SAMEOBJ(out, rs))
    CHECK_EQ("positions are not written", rs.rays[0], before[0])
    for nm in keep:
        CHECK_EQ("%s is not written" % nm, getattr(rs, nm), keep[nm])
    d = before[1]
    if mat == "absorber":
        CHECK_EQ("absorbed rays lose their direction", rs.rays[1], np.zeros(d.shape))
        CHECK_EQ("absorbed rays keep their index", rs.index, ri)
    elif mat == "mirror":
        CHECK_EQ("mirrored rays are reflected about the surface normal", rs.rays[1], d - 2 * np.sum(d * nrm, axis=0) * nrm)
        CHECK_EQ("mirrored rays keep their index", rs.index, ri)
    else:
        n2 = k + 0 * rs.wavelength if mat == "basic" else m.index_at(rs.wavelength)
        e, idx, sharp, passes = snell(d, nrm, ri, n2, 1.0)
        CHECK_EQ("refracted rays obey the law of refraction at the ray's wavelength", rs.rays[1], e, where=sharp)
        CHECK_EQ("the index after refraction", rs.index, idx, where=sharp)
'''
