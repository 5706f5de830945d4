"""property id -> harnesses"""
from ..analysis import Harness
from . import tracer

HEALTHY = (100., 40.)
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


def harnesses(pid, tier):
    c = CHECKS[pid]
    hs = list(c["quick"]())
    if tier == "thorough" and c.get("thorough"):
        hs += list(c["thorough"]())
    if tier == "thorough":
        for h in hs:
            if isinstance(h, Harness):
                h.groups = int(h.groups * 4)
                h.time_cap = 3000
                h.max_parts *= 4
    return hs


def H(name, src, arg=None, **kw):
    cost = kw.pop("cost", 1)
    ind = kw.pop("independence", False)
    h = Harness(name, src, arg=arg, **kw)
    if "groups" not in kw and cost == 1 and not ind:
        h.groups = 720
    h.cost = cost
    h.independence = ind
    return h


check("C01", quick=lambda: [
    H("nearest-1", tracer.TRACE, (1, 1, 1, None, HEALTHY)),
    H("nearest-2", tracer.TRACE, (2, 1, 1, None, HEALTHY)),
    H("nearest-3", tracer.TRACE, (3, 1, 1, None, HEALTHY)),
    H("nearest-4", tracer.TRACE, (4, 1, 1, None, HEALTHY)),
    H("nearest-3-gen2", tracer.TRACE, (3, 1, 2, None, HEALTHY)),
    H("nearest-compound", tracer.TRACE, ((2,), 1, 1, None, HEALTHY)),
    H("nearest-many-hits", tracer.TRACE, ((4,), 1, 1, None, HEALTHY)),
    H("nearest-rare", tracer.TRACE, ("rare", 1, 1, None, HEALTHY), groups=12, sizes=(500, 1000)),
    H("nearest-compounds", tracer.TRACE, ((2, 2), 1, 1, None, HEALTHY)),
    H("nearest-mixed", tracer.TRACE, ((1, 2, 1), 1, 1, None, HEALTHY)),
    H("nearest-crowd", tracer.TRACE, (12, 1, 1, None, HEALTHY)),
], labels="column (surface|x1|y1|z1|id)")

check("C05", quick=lambda: [
    H("rarely-met", tracer.INDEPENDENT, ("rare", 1, None, HEALTHY), independence=True, groups=12, sizes=(600, 1000)),
    H("few-left", tracer.INDEPENDENT, (1, 2, None, (0.,) * 299 + (100.,)), independence=True, groups=12, sizes=(400, 1000)),
    H("stub-2", tracer.INDEPENDENT, (2, 2, None, HEALTHY), independence=True),
    H("stub-3", tracer.INDEPENDENT, (3, 1, "choice:0.05,50,3", (100., 0.05)), independence=True),
    H("sphere-BK7-2", tracer.OPTICS_INDEPENDENT, ("sphere", "BK7", 2), independence=True),
    H("paraboloid-mirror-2", tracer.OPTICS_INDEPENDENT, ("paraboloid", "mirror", 2), independence=True),
    H("lens-glass-2", tracer.OPTICS_INDEPENDENT, ("lens", "glass", 2), independence=True),
] + [H("%s-%s" % (k, m), tracer.OPTICS_INDEPENDENT, (k, m, 1), independence=True)
     for k, m in (("sphere", "glass"), ("plane", "mirror"), ("cylinder", "BK7"), ("paraboloid", "mirror"), ("cuboid", "glass"), ("csg", "glass"), ("lens", "BK7"))])
check("C06", quick=lambda: [H("repeat-2-2", tracer.REPEAT, (2, 2, "two")), H("repeat-1-3", tracer.REPEAT, (1, 3, "two")), H("repeat-one", tracer.REPEAT, (2, 2, "one")),
                               H("repeat-kept", tracer.REPEAT, (2, 2, "kept")), H("repeat-kept-two", tracer.REPEAT, (1, 2, "kept two"))])
check("C07", quick=lambda: [H("config-" + c.replace(" ", "-"), tracer.CONFIG, c) for c in tracer.CONFIGS])
WEAK = "choice:0.05,50,0.1,3"
check("C02", quick=lambda: [
    H("rows-2-1", tracer.TRACE, (2, 1, 2, None, HEALTHY)),
    H("rows-2-2", tracer.TRACE, (2, 2, 2, None, HEALTHY)),
    H("rows-3-gen1", tracer.TRACE, (3, 2, 1, None, HEALTHY)),
    H("rows-compound", tracer.TRACE, ((2, 1), 1, 2, None, HEALTHY)),
    H("rows-late-session", tracer.TRACE, (2, 1, 1, None, HEALTHY, None, 70000)),
    H("rows-crowd", tracer.TRACE, (1, 1, 1, None, HEALTHY), groups=2, sizes=(70001, 3)),
    H("rows-long", tracer.LONG, (25, 0), cost=2, groups=60),
])
check("C03", quick=lambda: [
    H("life-1-1", tracer.TRACE, (1, 1, 1, WEAK, HEALTHY)),
    H("life-dim", tracer.TRACE, (1, 2, 1, None, (100., 0.05, 0.0999, 0.1, 0.2, 0., 1e6))),
    H("life-dim-2", tracer.TRACE, (2, 1, 2, WEAK, (100., 0.05, 3., 0.1))),
    H("life-few-left", tracer.TRACE, (1, 1, 2, None, (0.,) * 299 + (100.,)), groups=12, sizes=(400, 1000)),
    H("life-strict", tracer.TRACE, (2, 1, 2, "choice:1,30,60,90,99", (100., 40., 80.), 85)),
    H("life-2-2", tracer.TRACE, (2, 1, 2, WEAK, HEALTHY)),
    H("life-2-3", tracer.TRACE, (2, 2, 3, WEAK, HEALTHY), cost=5),
    H("life-1-4", tracer.TRACE, (1, 1, 4, WEAK, HEALTHY), cost=5),
    H("life-long", tracer.LONG, (45, 0), cost=2, groups=60),
    H("life-long-dim", tracer.LONG, (25, 20), cost=2, groups=60),
    H("life-very-long", tracer.LONG, (130, 0), cost=2, groups=60),
], labels="column (generation|id|surface|intensity)|limit|interaction")
check("C04", quick=lambda: [
    H("chain-2-3", tracer.TRACE, (2, 1, 3, None, HEALTHY), cost=5),
    H("chain-1-4", tracer.TRACE, (1, 2, 4, WEAK, HEALTHY), cost=5),
], labels="column (generation|id|index|x0|y0|z0|x_tilt|y_tilt|z_tilt|wavelength)")
from . import world

OPS = ["move", "move_kw", "move_x", "move_y", "move_z", "scale", "scale_x", "scale_y", "scale_z", "scale_all", "rotate_x", "rotate_y", "rotate_z",
       "rotate_x_rad", "rotate_y_rad", "rotate_z_rad", "transform"]
FAR = ["scale_far", "scale_all_far", "move_far", "rotate_x_far", "rotate_y_far", "rotate_z_far", "rotate_z_rad_far"]
WHOLE = ["move_int", "move_ints", "move_y_int", "scale_int", "scale_int_last", "scale_ints", "scale_all_int", "rotate_x_int", "rotate_z_int_rad", "transform_ints"]
KINDS = ["world object", "sphere", "group", "difference", "camera", "source"]


def coherent():
    hs = [H("op-" + k, world.COHERENT, ("world object", [k])) for k in OPS]
    hs += [H("far-" + k, world.COHERENT, ("world object" if i % 2 else "sphere", [k])) for i, k in enumerate(FAR)]
    hs += [H("far-seq-%d" % i, world.COHERENT, (k, s)) for i, (k, s) in enumerate((("sphere", ["scale_all_far", "rotate_x"]), ("group", ["scale_all_far", "move", "rotate_y_far"])))]
    hs += [H("whole-" + k, world.COHERENT, ("world object", [k])) for k in WHOLE]
    hs += [H("whole-seq-%d" % i, world.COHERENT, (k, s)) for i, (k, s) in enumerate((("sphere", ["move_ints", "scale_int", "rotate_z"]), ("group", ["scale_ints", "move_int", "scale"])))]
    hs += [H("seq-%s" % k.replace(" ", "-"), world.COHERENT, (k, ["move", "rotate_x", "scale", "transform"])) for k in KINDS]
    return hs


QUATS = [["rotate_x"], ["rotate_y_rad"], ["rotate_z"], ["rotate_x", "rotate_y", "rotate_z"], ["rotate_z_rad", "move", "rotate_x_rad"]]


def quaternions():
    return [H("quaternion-%d" % i, world.QUAT, s) for i, s in enumerate(QUATS)]


check("C08", quick=lambda: coherent() + quaternions(), skip="composition of the operations")
check("C09", quick=lambda: coherent() + quaternions()
      + [H("refused", world.BADOPS)], labels="composition|chaining|quaternion|refused|unknown angle|not all positive")
check("C10", quick=lambda: [H("tree-%s-%d" % (t.replace(" ", "-"), i), world.NESTED, (t, s)) for t in world.TREES for i, s in enumerate((["move", "rotate_z"], ["transform"], ["scale", "rotate_y", "move_x"]))])
check("C24", quick=lambda: [H("pin-%s-%s" % (w.replace(" ", "-"), h), world.PIN, (w, s, h))
                           for w in ("sphere", "two", "csg", "group", "lens", "member then compound", "compound then member", "source")
                           for h, s in (("last", ["move", "rotate_y", "scale"]), ("all", ["transform", "rotate_x"]), ("raise", ["rotate_z", "move"]))]
      + [H("pin-%s-%s" % (w.replace(" ", "-"), h), world.PIN, (w, ["move", "rotate_y"], h)) for w, h in (("named twice", "last"), ("levels", "last"), ("levels", "all"), ("group", "nested"), ("two", "nested"))]
      + [H("pin-slight-%s-%s" % (w.replace(" ", "-"), k), world.PIN, (w, [k], "last")) for i, w in enumerate(("sphere", "group", "csg", "source", "two")) for k in ("slight_move", "slight_turn", "slight_scale")])

from . import csg, geometry, optics, parts, sources

FACTS = ("circle", "rectangle", "ellipse")
SHAPES = ["sphere", "cylinder", "default cylinder", "paraboloid", "plane", "cuboid", "cuboid corners swapped", "cuboid from sides", "cuboid from length", "default cuboid"]
SOLIDS = ["sphere", "cylinder", "paraboloid", "cuboid"]


def nm(x):
    """readable harness name of an expression tree"""
    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], str) and not isinstance(x[1], str):
        return "%s(%s,%s)" % (x[0], nm(x[1]), nm(x[2]))
    return str(x)


CULLS = [
    (("union", 0, 1), ["sphere", "cylinder"], True, []),
    (("union", 0, 1), ["sphere", "sphere"], False, []),
    (("union", 0, 1), ["cuboid", "paraboloid"], True, [("all", "rotate_z"), (1, "move")]),
    (("intersect", 0, 1), ["sphere", "cuboid"], False, [("all", "transform")]),
    (("intersect", 0, 1), ["cylinder", "paraboloid"], False, [(0, "rotate_y"), (1, "scale")]),
    (("difference", 0, 1), ["cuboid", "cylinder"], False, [(0, "move"), ("all", "rotate_y")]),
    (("difference", 0, 1), ["sphere", "sphere"], True, [(0, "scale")]),
    (("union", ("intersect", 0, 1), 2), SOLIDS, False, [(0, "move"), (1, "move")]),
    (("difference", ("difference", 0, 1), 2), SOLIDS, False, [(0, "move"), (2, "move")]),
    (("union", ("union", 0, 1), 2), SOLIDS, True, [("all", "transform"), (0, "rotate_z")]),
    (("union", ("union", 0, 1), 2), SOLIDS, False, [("l", "move"), (0, "move_x"), ("all", "scale")]),
    (("intersect", 0, ("union", 1, 2)), SOLIDS, False, [("r", "rotate_x"), (2, "move")]),
]
check("C11", quick=lambda: [H("cull-%s-%d" % (nm(a[0]), i), csg.CULL, a) for i, a in enumerate(CULLS)]
      + [H("box-%s" % k, csg.BOUNDS, (k, ["rotate_x", "scale", "transform"])) for k in ("sphere", "cylinder", "paraboloid", "plane", "cuboid")],
      skip="attributed")
check("C12", quick=lambda: [H("tree-" + nm(t), csg.SEMANTICS, t) for t in csg.TREES2 + csg.TREES3],
      thorough=lambda: [H("tree-" + nm(t), csg.SEMANTICS, t) for t in csg.TREES4])
check("C13", quick=lambda: [H("hits-%s-%d%d" % (k.replace(" ", "-"), ax, pl), geometry.HITS, (k, ax, pl)) for k in SHAPES for ax in (0, 1) for pl in (0, 1)] + [H("spelled", geometry.SPELLED)])
check("C14", quick=lambda: [H("normals-%s-%s" % (k.replace(" ", "-"), w.replace(" ", "-")), geometry.NORMALS, (k, w)) for k in SHAPES for w in ("as built", "placed", "flipped", "reset")]
      + [H("signs-" + nm(t), csg.SIGNS, t) for t in csg.TREES2 + csg.TREES3 + csg.TREES4])
check("C15", quick=lambda: [H("reflect-%d" % d, optics.REFLECT, d) for d in (3, 4)] + [H("mirror-" + s, optics.MATERIAL, (s, "mirror")) for s in ("stub", "sphere", "plane", "flipped")],
      skip="(are|is) not (written|changed)|same ray set")
REFRACTS = [(d, a, b, g) for d in (3, 4) for a in ("array", "scalar") for b in ("array", "scalar") for g in (None, "array", "scalar")]
check("C16", quick=lambda: [H("refract-%d-%s-%s-%s" % a, optics.REFRACT, a) for a in REFRACTS]
      + [H("glass-%s-%s" % (s, m), optics.MATERIAL, (s, m)) for s in ("stub", "sphere", "plane", "flipped") for m in ("BK7", "basic")],
      skip="(are|is) not (written|changed)|same ray set")
check("C17", quick=lambda: [H("dispersion-" + w, optics.DISPERSION, w) for w in ("basic", "positional", "keywords", "changed")] + [H("catalog", optics.CATALOG)],
      skip="not changed")
check("C18", quick=lambda: [H("material-%s-%s" % (s, m), optics.MATERIAL, (s, m)) for s in ("stub", "sphere", "plane", "flipped") for m in ("mirror", "absorber", "BK7", "basic")],
      labels="(are|is) not (written|changed)|same ray set|absorbed|keep")
check("C19", quick=lambda: [H("pattern-%s-%s" % (k, w), sources.PATTERN, (k, w), groups=80, sizes=(1, 2, 3, 4, 5, 7, 16, 50, 181, 720)) for k in ("line", "circle", "cone", "wedge") for w in ("default", "given", "changed", "single")]
      + [H("lamp-%s-%d" % (k, m), sources.LAMP, (k, m)) for k in ("lamp", "static", "half space") for m in (0, 1)]
      + [H("spelled-" + k, sources.SPELLED, k) for k in ("line", "circle", "cone", "wedge")], skip="every call|editing|does not change")
check("C20", quick=lambda: [H("static-" + w.replace(" ", "-"), sources.STATIC, w) for w in sources.STATICS]
      + [H("pattern-%s-%s" % (k, w), sources.PATTERN, (k, w)) for k in ("line", "circle", "cone", "wedge") for w in ("given", "changed")]
      + [H("glass-%s" % w, optics.DISPERSION, w) for w in ("changed", "basic")],
      labels="index answer|static|every call|editing|does not change|rays handed out|another ray count|wavelength|second lamp|Abbe|index for")
LENSES = [("thick", a, b, k, 0) for a in ("+", "-", "inf") for b in ("+", "-", "inf") for k in FACTS] \
    + [("thick", a, b, "default", 1) for a in "+-" for b in "+-"] \
    + [("biconvex", a, b, k, i % 2) for a in ("+", "-", "inf") for b in ("+", "-", "inf") for i, k in enumerate(("circle", "ellipse"))] \
    + [("keywords", "+", "-", "circle", 1)] + [("plano", "inf", b, k, 1) for b in ("+", "-", "inf") for k in FACTS + ("default",)]
check("C21", quick=lambda: [H("lens-%s-%s-%s-%s-%d" % a, parts.LENS, a) for a in LENSES] + [H("spelled-" + k.replace(" ", "-"), parts.SPELLED, k) for k in ("thick", "biconvex", "plano")])
MIRRORS = [(k, a, o, o ^ m) for k in ("plane", "sphere inf", "flat", "sphere", "sphere bulging", "parabola") for a in FACTS + ("default",) for o in (0, 1) for m in (0, 1) if m == 0 or a == "circle"]
check("C22", quick=lambda: [H("mirror-%s-%s-%d-%d" % (a[0].replace(" ", "-"), a[1], a[2], a[3]), parts.MIRROR, a) for a in MIRRORS]
      + [H("spelled-" + k.replace(" ", "-"), parts.SPELLED, k) for k in ("plane mirror", "spherical mirror", "parabolic mirror")])
check("C23", quick=lambda: [H("baffle-" + a, parts.PLANAR, ("baffle", a, None)) for a in FACTS]
      + [H("aperture-%s-%s" % (a, b), parts.PLANAR, ("aperture", a, b)) for a in FACTS for b in FACTS]
      + [H("prism-%d" % i, parts.PRISM, i) for i in (0, 1, 2)] + [H("spelled-" + k.replace(" ", "-"), parts.SPELLED, k) for k in ("baffle", "aperture", "prism")] + [H("refused", parts.BADPARTS)])
check("C29", quick=lambda: [H("layout", sources.LAYOUT)])
from . import render, small, defined

CAMS = [(4, 0.5, 2, ["move", "rotate_y"]), (3, 0.7, 2, ["transform"]), (2, 1.5, 3, ["rotate_z", "scale"]), (1, 1, 1, []), (5, 0.6, 3, ["rotate_x", "move"])]
check("C25", quick=lambda: [H("camera-%d" % i, render.CAMERA, a) for i, a in enumerate(CAMS)]
      + [H("shaded-%s-%d" % a, render.SHADED, a, **({"cost": 3, "groups": 240} if a[0] == "compound" else {})) for a in (("stubs", 0), ("stubs", 2), ("solids", 0), ("compound", 0), ("group", 2), ("glass", 0))]
      + [H("edges-%s" % k, render.EDGES, k) for k in ("stubs", "solids")] + [H("edges-tiles-%d" % k, render.EDGES, ("tiles", k)) for k in range(12)],
      thorough=lambda: [H("shaded-%s-%d" % a, render.SHADED, a) for a in (("solids", 2), ("compound", 2), ("glass", 2), ("group", 0))])
check("C26", quick=lambda: [H("color-" + k, render.COLOR, k) for k in ("array", "knots", "gamma", "single")]
      + [H("maker-%s-%s" % (a, b), render.MAKERS, (a, b)) for a in ("+", "-", "inf") for b in ("+", "-", "inf") if (a, b) != ("inf", "inf")])
check("C27", quick=lambda: [defined.Definedness()])
check("C28", quick=lambda: [H("answers-" + k.replace(" ", "-"), small.QUERIES, k) for k in ("world object", "group", "camera", "source", "sphere", "cylinder", "difference", "union")]
      + [H("asked-" + k, small.ASKED, k) for k in ("sphere", "cylinder", "paraboloid", "plane", "cuboid", "difference", "union")] + [H("built", small.BUILT)]
      + [H("glass-%s" % w, optics.DISPERSION, w) for w in ("basic", "positional")], skip="^(index for|Abbe|defining|the other)")
check("C30", quick=lambda: [H("ids-" + k, small.IDS, k) for k in ("shapes", "trees", "parts", "deep", "late")])
ATS = [(0, 0, 0), (3, -2, -5.25), (-4, 6.5, 2)]
DRAWS_ = [("sphere", "xy", 1, 0, 0), ("sphere", "xz", 1, 0, 1), ("tall", "xy", 1, 0, 2), ("tall", "xz", 1, 0, 2), ("tall", "xz", 0, 0, 1), ("pair", "xy", 1, 0, 1), ("pair", "xz", 0, 0, 2),
          ("pair", "xy", 1, 1, 1), ("pair", "xz", 1, 2, 2), ("hollow", "xy", 1, 0, 1), ("hollow", "xz", 0, 0, 0), ("edge-on", "xz", 1, 0, 1), ("edge-on", "xy", 1, 0, 2), ("thin", "xy", 1, 0, 0), ("thin", "xz", 1, 0, 2)]
check("C31", quick=lambda: [H("draw-%s-%s-%d-%d-%d" % a, render.DRAW, a[:4] + (ATS[a[4]],)) for a in DRAWS_]
      + [H("show-%s-%s-%d" % a, render.SHOW, a) for a in ((v, c, o) for v in ("xy", "xz") for c in (None, "wavelength", "source") for o in (0, 1))]
      + [H("show-many-%d" % m, render.SHOW, ("xy", "source", 0, m), cost=3, groups=120) for m in (3, 11)]
      + [H("untraced-%s-%s" % a[:2], render.UNTRACED, a) for a in (("xy", None, 0), ("xz", "wavelength", 0), ("xy", "source", 0))],
      thorough=lambda: [H("draw-%s-%s-%d-0-%d" % (k, v, s, p), render.DRAW, (k, v, s, 0, ATS[p])) for k in ("sphere", "tall", "pair", "hollow") for v in ("xy", "xz") for s in (0, 1) for p in (0, 1, 2)])
check("C32", quick=lambda: [H("coordinates", small.COORDS)] + [H("algebra-" + k, small.ALGEBRA, k) for k in ("roots", "negative", "given", "linear", "constant", "positive", "dot")]
      + [H("overlap-%d%d" % a, small.OVERLAP, a) for a in ((2, 2), (3, 2), (2, 4))]
      + [H("outline-%s-%d" % (k.replace(" ", "-"), s), small.OUTLINES, (k, s)) for k in ("disk", "diameter", "default disk", "rectangle", "default") for s in (0, 1)])
check("C33", quick=lambda: [H("paint-" + k.replace(" ", "-"), render.PAINTS, k) for k in ("fields", "named", "many points", "one point", "two lights", "three lights", "nine lights", "one point two lights", "ray point")])
RIGID_CASES = (("sphere", 1, "moved"), ("lens", 1, "moved"), ("mirrors", 2, "moved"), ("prism", 1, "moved"), ("csg", 1, "moved"), ("sphere", 2, "moved"), ("thick lens", 1, "moved"), ("parabola", 1, "moved"), ("plane", 2, "moved"),
               ("group", 1, "moved"), ("nested", 1, "moved"), ("lens", 1, "enlarged"), ("mirrors", 2, "enlarged"), ("prism", 1, "enlarged"), ("sphere", 2, "shifted"), ("thick lens", 2, "shifted"), ("mirrors", 2, "quarter"), ("plane", 2, "shifted"))
check("C34", quick=lambda: [H("%s-%s-%d" % (a[2], a[0].replace(" ", "-"), a[1]), tracer.RIGID, a, groups=240) for a in RIGID_CASES])
