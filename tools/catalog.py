"""python3 tools/catalog.py: writes properties.jsonl and MANIFEST.json from the list below (run by hand when the list changes)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, CO, M, U = "pyrayt/_pyrayt.py", "pyrayt/components.py", "pyrayt/materials.py", "pyrayt/utils.py"
W, P, C, O, R, G = ("tinygfx/g3d/" + x for x in ("world_objects.py", "primitives.py", "csg.py", "operations.py", "renderers.py", "materials/gooch.py"))

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                               "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism], "observe_at": observe, "hook_needed": None},
                      technique=technique, note=note))


AI = "abstract interpretation of the source into a gated value-flow graph; "
BASE = ("Every obligation is decided over all rays at once (one generic ray) and for every value of the symbolic inputs, up to the sampled interpretations of the value graph: "
        "refutations are confirmed and name the construct, confirmations are exact for congruence and normal form and probabilistic for random interpretation. "
        "Trusts the transfer functions written for numpy, pandas, scipy and matplotlib; ignores rounding. ")

prop("C01", "Each ray interacts with its nearest surface ahead",
     "At every generation a traced ray is advanced to the nearest intersection strictly ahead of it among the surfaces of all loaded components, and the row recorded for it names that surface and ends at that point. "
     "Intersections behind the ray or at distance zero are never chosen, and the choice does not depend on the order in which components are loaded.",
     ["inputs", "programs"], "every ray set, every collection of components and every number, sign and order of the intersections they report",
     "The tests trace a handful of fixed systems with one or two components; nearest-hit selection must hold for every combination of hit lists, including none, ties with infinity and negative ones.",
     [T], [("nearest-hit selection over all components", T + ":RayTracer._st_propagate"), ("recording of the hit point", T + ":RayTracer._st_interact"), ("result row assembly", T + ":_RayTraceDataframe.insert")],
     ["RayTracer.trace()"], AI + "comparison with the nearest-hit specification over uninterpreted component hit functions",
     BASE + "One to three components with up to two surfaces, each reporting arbitrary hit lists.",
     [("_surface_lut", "maps surface ids to surfaces for the interaction step", T + ":RayTracer")])

prop("C02", "The result table has one row per ray per interaction, with all its fields",
     "For every generation, every ray that was still alive and hit something contributes exactly one row, whose segment, tilt, wavelength, index, intensity, ray id, surface id and generation are those of that same ray on that segment; rays that hit nothing contribute no row. "
     "Rows are never duplicated, lost, overwritten or mixed between rays, however many generations are recorded.",
     ["inputs", "histories"], "every ray set, every pattern of which rays hit, miss or are absorbed in which generation",
     "Tests look at the shape of one or two result tables; alignment of 15 columns must hold for every pattern of hits, misses and removals.",
     [T], [("result accumulation", T + ":_RayTraceDataframe.insert"), ("per-generation recording", T + ":RayTracer._st_interact"), ("surface id bookkeeping", T + ":RayTracer._st_propagate")],
     ["RayTracer.trace()", "RayTracer.get_results()"], AI + "column-by-column value numbering against the specification of the table",
     BASE + "Up to three components, two sources and two generations.", [("_frame", "accumulated rows", T + ":RayTracer")])

prop("C03", "A ray lives exactly until it misses, is absorbed, dims out or hits the limit",
     "A ray keeps being traced as long as it hits a surface, still has a direction after the interaction, its intensity is not below the intensity threshold and its generation is below the generation limit; in each other case it is dropped and never appears again. "
     "Dropping rays never changes the rays that remain, and every tracing run ends.",
     ["inputs", "histories"], "every ray set, every sequence of materials met, every threshold and generation limit of at least one",
     "The existing tests never set an intensity threshold and check one limit; survival has to be right for every combination of the four conditions.",
     [T], [("removal of dead rays", T + ":RayTracer._st_interact"), ("termination", T + ":RayTracer.trace"), ("generation counter", T + ":RayTracer._st_interact")],
     ["RayTracer.trace()"], AI + "comparison with the survival specification (trace partitioning over generations)",
     BASE + "Limits of one to four generations, sources of arbitrary intensity around the threshold.", [("_ray_set", "the rays still alive", T + ":RayTracer")])

prop("C04", "The recorded segments of a ray join up",
     "Each segment of a ray starts where its previous segment ended (up to the fixed offset that lifts it off the surface), in the direction, with the index and the intensity the previous interaction gave it; its identity and wavelength never change. "
     "The first segment starts at the source.",
     ["inputs", "histories"], "every ray, every number of interactions, every material",
     "Tests check single interactions; continuity must hold along every path.",
     [T], [("advance and offset", T + ":RayTracer._st_interact"), ("recording", T + ":RayTracer._st_interact")], ["RayTracer.trace()"],
     AI + "comparison of consecutive rows with the chaining specification", BASE + "Paths of up to four interactions.")

prop("C05", "Rays do not influence each other",
     "The rows recorded for a ray are the same whether it is traced alone or together with any number of other rays. "
     "This includes rays that are absorbed, miss, are totally reflected or fall below the threshold next to it.",
     ["inputs"], "every ray set and every subset of it, through every kind of component and material",
     "A test would have to compare every ray set with all its subsets.",
     [T, O, M, P, C], [("vectorised interaction", T + ":RayTracer"), ("vectorised optics", O + ":refract"), ("vectorised intersection", P)], ["RayTracer.trace()"],
     AI + "non-interference between lanes (two interpretations of the same value graph that differ only in the other rays)", BASE)

prop("C06", "Tracing is read-only and repeatable",
     "Tracing changes neither the components, their materials nor the sources, and tracing an unchanged system with deterministic sources again gives the same table. "
     "A table handed out earlier is not changed by later runs.",
     ["histories", "programs"], "every system and every number of repeated traces",
     "The tests run a system once and look at a few columns; hidden state shows only in arbitrary repetition.",
     [T, CO], [("fresh state per run", T + ":RayTracer._st_initialize"), ("source emission", CO + ":Source.generate_rays")], ["RayTracer.trace()", "RayTracer.get_results()"],
     AI + "heap comparison and value numbering across repeated runs", BASE)

prop("C07", "A trace reflects the configuration in force when it starts",
     "Each run uses the sources, components, ray count, generation limit, intensity threshold, poses and materials in force at the moment it is started, no matter what was loaded, traced or changed before. "
     "The configuration that can be queried is the one that is used.",
     ["histories", "configurations"], "every history of loading, changing, resetting and tracing",
     "The tests configure each system once; stale caches show only after particular histories.",
     [T], [("initialisation of a run", T + ":RayTracer._st_initialize"), ("component loading", T + ":RayTracer.load_components"), ("reset", T + ":RayTracer.reset")],
     ["RayTracer.trace()", "RayTracer.get_system()"], AI + "comparison of a reconfigured tracer with a freshly built one", BASE,
     [("_surface_lut", "surface table derived from the components", T + ":RayTracer")])

prop("C08", "An object's pose views always agree",
     "After any sequence of moves, rotations and scalings, the world transform, its inverse, the position, the orientation and everything transformed to or from object coordinates all describe the same pose. "
     "The inverse really is the inverse.",
     ["histories", "inputs"], "every sequence of transformations with every admissible parameter, on every kind of object",
     "Tests check single transformations of default objects.",
     [W], [("transform bookkeeping", W + ":WorldObject")], ["get_world_transform", "get_object_transform", "get_position", "get_orientation", "to_object_coordinates"],
     AI + "normal-form matrix identities over symbolic parameters", BASE, [("_world_coordinate_transform", "pose", W + ":WorldObject"), ("_object_coordinate_transform", "its inverse", W + ":WorldObject")])

prop("C09", "Elementary moves, rotations and scalings do what their names say",
     "Each move, scale and rotation call applies exactly the named affine map about the world origin on top of the pose so far, returns the object itself so that calls chain, and angles are in the unit asked for. "
     "Non-positive scale factors and malformed transforms are refused without changing the object.",
     ["inputs", "histories"], "every parameter value, every call form and every preceding sequence of calls",
     "Tests use a few angles and offsets on default objects.",
     [W], [("elementary transforms", W + ":WorldObject"), ("quaternion", W + ":WorldObject.get_quaternion")], ["move", "rotate_x", "scale", "transform", "get_quaternion"],
     AI + "normal-form matrix identities against the textbook maps", BASE)

prop("C10", "Moving a compound moves all of its parts rigidly together",
     "A transformation applied to a compound (boolean combination or group, nested to any depth) is applied exactly once to every member, so that the relative placement of the parts never changes. "
     "A member can still be moved on its own, which moves nothing else.",
     ["histories", "programs"], "every nesting of compounds, every order of building and moving",
     "Tests move flat two-member compounds.",
     [W, C], [("propagation to members", W + ":ObjectGroup"), ("propagation to children", C + ":CSGSurface")], ["get_world_transform of members"],
     AI + "value numbering of every member's pose over all tree shapes", BASE)

prop("C11", "Bounding volumes never hide a real intersection",
     "A ray that meets the surface of a boolean combination is always reported to meet it: the bounding volumes used for culling enclose the whole shape whatever its members are, wherever they are and however the compound, its members or members of its members have been moved since. "
     "The bounding volume of a primitive encloses its entire surface after any transformation.",
     ["inputs", "histories"], "every boolean combination, every placement and movement history, every ray",
     "Culling errors show only for particular arrangements and viewing directions; tests use overlapping shapes near the origin.",
     [C, P, W], [("culling by bounding box", C + ":CSGSurface.intersect"), ("box of a compound", C + ":CSGSurface"), ("box of a transformed surface", W + ":TracerSurface")],
     ["intersect", "bounding_volume"], AI + "equality of culled and unculled intersections over symbolic shapes, poses and rays", BASE,
     [("bounding volumes", "axis-aligned boxes in world coordinates", W + ":TracerSurface")])

prop("C12", "Boolean combinations follow set algebra",
     "The surface of a union, intersection or difference is met exactly where a ray passes from inside to outside, or outside to inside, of the combined point set, in order along the ray, and every reported hit is attributed to the member surface it lies on. "
     "This holds for nested combinations in any arrangement of overlap, containment or separation.",
     ["inputs", "programs"], "every expression tree of boolean operations, every arrangement of the members, every ray, including rays starting inside",
     "Tests cover a few rays through two overlapping spheres.",
     [C], [("merging of hit lists", C + ":array_csg"), ("surface attribution", C + ":CSGSurface.intersect")], ["intersect"],
     AI + "comparison with membership semantics over arbitrary convex members",
     BASE + "All expression trees over up to three members (four in the thorough tier); members are arbitrary convex solids.")

prop("C13", "Primitive shapes are hit exactly where their surface is",
     "For every primitive solid or plane in any pose, the reported distances are, in ascending order, all and only the parameters at which the ray's line crosses the shape's surface (flat shapes may repeat theirs), and infinite where there is none; "
     "distances are measured along the ray's own direction, on both sides of its origin. Intersecting changes neither the rays nor the shape.",
     ["inputs"], "every shape parameter, every pose and every ray, including axis-parallel ones",
     "Tests shoot a few rays at unit shapes.",
     [P, W], [("analytic intersection", P), ("world to object coordinates", W + ":TracerSurface.intersect"), ("quadratic roots", O + ":binomial_root")], ["intersect"],
     AI + "comparison with the analytic intersections over symbolic shape, pose and ray", BASE)

prop("C14", "Surface normals are unit vectors pointing outward",
     "At every point of its surface a shape's world normal is perpendicular to the surface there, has unit length and points away from the solid it bounds, in any pose including non-uniform scaling; in a boolean combination it points out of the combined solid. "
     "Inverting the normals flips exactly the sign, and resetting restores them, for nested combinations as well.",
     ["inputs", "histories", "programs"], "every shape, pose, surface point, expression tree and history of inversions",
     "Tests evaluate normals at a few points of unit shapes.",
     [P, W, C], [("analytic normals", P), ("normal transformation", W + ":TracerSurface.get_world_normals"), ("orientation in differences", C + ":difference")], ["get_world_normals"],
     AI + "comparison with gradient normals over symbolic points and poses", BASE)

prop("C15", "Mirrors reflect about the surface normal",
     "A reflected direction is the incoming one with its component along the surface normal reversed, so that its length is kept, the angle of reflection equals the angle of incidence and reflecting twice restores it, whichever side is hit and whatever the orientation of the normal. "
     "Every ray of a set is reflected about its own normal, or all about one if only one is given.",
     ["inputs"], "every direction, unit normal, dimension and number of rays", "Tests use a few vectors.",
     [O, M], [("reflection", O + ":reflect"), ("mirror", M + ":_ReflectingMaterial.trace")], ["reflect", "mirror.trace"], AI + "algebraic normal form against the reflection law", BASE)

prop("C16", "Refraction obeys Snell's law, with total internal reflection",
     "A ray crossing between media bends so that the product of index and sine of the angle to the normal is conserved and it stays in the plane of incidence, with a unit direction; beyond the critical angle it is totally reflected and stays in its medium. "
     "Which medium it enters follows from the side it comes from, its index afterwards is that medium's, and the light path is reversible.",
     ["inputs"], "every unit direction and normal, every pair of indices given per ray or once for all, both sides of the interface",
     "Tests check a few angles of incidence.",
     [O, M], [("vector refraction", O + ":refract"), ("glass", M + ":Glass.trace")], ["refract", "material.trace"],
     AI + "comparison with the vector form of Snell's law", BASE + "Directions within a small band around the critical angle are excluded, where either answer is accepted.")

prop("C17", "Dispersion follows the glass's own coefficients",
     "The index a glass reports at a wavelength is that of its dispersion formula with the coefficients it currently has, element by element for arrays of any shape, and its Abbe number is computed from the same formula. "
     "Glasses never share coefficients, and catalogued glasses have their published values.",
     ["inputs", "histories"], "every coefficient set, wavelength and history of coefficient changes", "Tests compare a few catalogue values.",
     [M], [("Sellmeier formula", M + ":SellmeierRefractor.index_at"), ("Abbe number", M + ":SellmeierRefractor.abbe")], ["index_at", "abbe", "glass"], AI + "normal form against the Sellmeier formula", BASE)

prop("C18", "An interaction changes only what its physics changes",
     "A material's interaction writes at most the direction and the index of the rays it is given: never their position, wavelength, intensity, identity or generation, nor the surface or material itself. "
     "Mirrors keep the index, absorbers leave the rays without a direction.",
     ["inputs"], "every material, surface and ray set", "Tests compare directions only.",
     [M], [("trace methods", M)], ["material.trace"], AI + "effect analysis (heap comparison) of each interaction", BASE)

prop("C19", "Sources emit the documented pattern from where they are placed",
     "Each source emits exactly the number of rays asked for, in its documented pattern and distribution, mapped by the source's pose, with unit directions, its own wavelength, full intensity (cosine law for lamps) and the index of the surrounding medium. "
     "No two rays of a ring coincide, and a lamp's rays are uniform over its area and over the solid angle of its cap, independently.",
     ["inputs"], "every ray count from one, every source parameter, pose and wavelength", "Tests look at counts and a few rays of default sources.",
     [CO], [("emission patterns", CO), ("placement", CO + ":Source.generate_rays")], ["generate_rays"], AI + "comparison with the closed-form pattern; structural identification of the distribution as an image of independent uniform draws", BASE)

prop("C20", "Cached results are never stale and never shared",
     "A static lamp gives the same random rays for the same ray count for ever, following its current pose and wavelength; what callers do to rays they were handed, other counts, other lamps and tracing do not disturb it. "
     "Likewise other sources hand out independent ray sets, and derived glass quantities follow the current coefficients.",
     ["histories"], "every history of emissions, moves, edits and traces", "Tests emit twice and compare.",
     [CO, M], [("ray cache", CO + ":StaticLamp"), ("Abbe number", M + ":SellmeierRefractor.abbe")], ["generate_rays", "abbe"], AI + "value numbering and alias analysis over emission histories", BASE,
     [("_ray_dict", "samples cached per ray count", CO + ":StaticLamp")])

prop("C21", "Lenses are the solids their parameters describe",
     "A lens built from two radii, a thickness and an aperture is exactly the solid between its two spherical or flat faces within the aperture: vertices half a thickness either side of its origin, curvature signs as documented, circular, rectangular and elliptical apertures of the given full size. "
     "All of its surfaces have the material asked for, or the documented default.",
     ["inputs", "configurations"], "every combination of radius signs, infinite radii, thickness, aperture form and material", "Tests build two lenses.",
     [CO], [("lens factories", CO + ":thick_lens"), ("aperture parsing", CO + ":_create_aperture")], ["thick_lens", "biconvex_lens", "plano_convex_lens"],
     AI + "comparison of the ray crossings with the documented solid", BASE)

prop("C22", "Mirrors are the solids their parameters describe and reflect on the right face",
     "Plane, spherical and parabolic mirrors occupy exactly the documented region: reflecting face of the given shape and position, thickness behind it, and the aperture of the given form and size, shifted by the off-axis distance. "
     "The mirror face has the mirror material and, for curved mirrors, every other side absorbs.",
     ["inputs", "configurations"], "every radius or focus, thickness, aperture form, off-axis shift and material", "Tests do not trace mirrors built with apertures or off-axis shifts.",
     [CO], [("mirror factories", CO)], ["plane_mirror", "spherical_mirror", "parabolic_mirror"], AI + "comparison of the ray crossings with the documented solid", BASE)

prop("C23", "Baffles, apertures and prisms are what their parameters describe",
     "A baffle absorbs exactly within its outline, an aperture exactly outside its opening and within its outline, for every combination of circular, rectangular and elliptical outlines; an equilateral prism is the documented triangular solid with the given side and width. "
     "Aperture descriptions of mixed sign are refused, and components built separately share neither state nor surface identities.",
     ["inputs", "configurations"], "every size and outline combination", "Tests do not trace any of these.",
     [CO], [("factories", CO)], ["baffle", "aperture", "equilateral_prism"], AI + "comparison of the ray crossings with the documented solid", BASE)

prop("C24", "A pinned scope restores every pose on exit",
     "On leaving a pinned scope, normally or through an exception, every pinned object and every member of pinned compounds has exactly the pose it had on entry, together with its bounding volumes. "
     "This holds for any set of objects in any order, including a compound and its own members.",
     ["histories", "fault_sequences"], "every set of objects, every sequence of moves inside the scope, exits by exception", "Tests pin single objects and leave normally.",
     [T], [("pin context manager", T + ":pin")], ["pin"], AI + "heap comparison across the scope on all exits", BASE)

prop("C29", "Ray sets keep every field with its ray",
     "Each field of a ray set reads back exactly what was written to it, writing one field never changes another, and selecting or joining ray sets keeps all fields of each ray together; a selection is independent of the set it was taken from. "
     "A new set has the documented defaults and consecutive ids.",
     ["inputs", "histories"], "every ray count, field, order of writes and selection", "Tests write two fields of a small set.",
     [T, CO], [("field layout", T + ":RaySet")], ["RaySet"], AI + "value numbering of every field after every write", BASE)

exec(open(os.path.join(HERE, "tools", "catalog_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "catalog_more.py")) else None

NA = globals().get("NA", [])


def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + [x["prop"] for x in NA]:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q sa",
         "checks": [{"property": p["id"], "quick_cmd": "python3-vt -m sa.run %s --tier quick" % p["id"], "thorough_cmd": "python3-vt -m sa.run %s --tier thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS],
         "not_applicable": [{"property": x["prop"]["id"], "reason": x["reason"]} for x in NA],
         "notes": "All checks read /repo's source and never import or run it. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
