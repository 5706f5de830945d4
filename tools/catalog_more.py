"""further properties (executed by catalog.py)"""

prop("C25", "A rendered pixel shows the nearest surface ahead of the camera",
     "Every pixel of a picture shows the nearest surface strictly ahead of the camera along that pixel's line of sight, as the placed camera sees it, shaded by that surface's own material and the light; pixels that see nothing are transparent, and outline pictures mark exactly the changes of the visible surface. "
     "A picture shows the scene as it is when it is taken, and taking it changes neither scene nor camera.",
     ["inputs", "histories"], "every scene, camera pose, span, aspect, resolution and light position", "The tests look at the size of one picture.",
     [R, W, G], [("camera rays", W + ":OrthographicCamera"), ("shaded picture", R + ":ShadedRenderer"), ("outline picture", R + ":EdgeRender"), ("shading", G + ":GoochMaterial.shade")],
     ["render()"], AI + "comparison of every pixel with the first surface ahead and the shading formula", BASE + "Pictures of up to thirty pixels, arbitrary poses and hit lists.")

prop("C26", "Wavelength colors and the lensmaker's formula are what they document",
     "Each wavelength is mapped to the color of the piecewise linear spectrum between 380 and 750 nm, element by element, with channels between 0 and 1, and wavelengths outside take the color of the nearest limit. "
     "The focal length of a thick lens satisfies the lensmaker's formula for every sign of the radii and for flat faces.",
     ["inputs"], "every wavelength, gamma, index, thickness and pair of radii (including infinite ones)", "Tests evaluate a handful of values.",
     [U], [("spectrum", U + ":wavelength_to_rgb"), ("lensmaker's formula", U + ":lensmakers_equation")], ["wavelength_to_rgb", "lensmakers_equation"],
     AI + "comparison with the piecewise formula", BASE + "Agreement of colors within 1e-7.")

prop("C27", "No path reads anything that does not exist",
     "On every path through the program, every name, attribute and module member that is read exists, every local value has been assigned, every call supplies what is called with the arguments it takes, and whatever returns a result returns one on every path. "
     "The examples and the sessions shown in the documentation use only what exists.",
     ["inputs", "programs"], "every path of every function, including error paths and options no test selects", "A misspelled attribute or unassigned local shows only when its path is executed; tests do not execute them all.",
     [T, CO, M, U, W, P, C, R, O, G], [("all functions", "pyrayt/"), ("all functions", "tinygfx/")], ["every public call"],
     "definedness analysis over the syntax trees: name and attribute resolution along class hierarchies, definite assignment with branch correlation, call signatures",
     "Exact for names, imports, module members, attributes an object reads of itself and calls that resolve statically; attributes of other values are judged only where their class follows from constructors, annotations and chained placement calls. Loops are taken to run at least once.")

prop("C28", "Answers belong to the caller and questions change nothing",
     "Positions, orientations, transforms, hits, normals and ray sets handed out can be edited without affecting the object or any other answer, and no query changes the object, its material or the arguments it is given. "
     "Values passed in to build or place an object can be edited afterwards without affecting it.",
     ["histories", "inputs"], "every object, every sequence of queries, edits and placements", "Tests never edit what they get back.",
     [W, P, C, T], [("pose queries", W + ":WorldObject"), ("hits and normals", W + ":TracerSurface"), ("construction", W + ":Cuboid")],
     ["get_position", "get_world_transform", "intersect", "get_world_normals"], AI + "alias analysis and heap comparison before and after each query and edit", BASE)

prop("C30", "Surfaces are identified uniquely and consistently",
     "No two surfaces in a program share an id, every component lists exactly the surfaces it is made of under their own ids, and hits carry only ids the component lists. "
     "Placing or inverting a component keeps its ids, and a component made of one surface answers with that surface's id.",
     ["programs", "histories"], "every collection of shapes, compounds and parts", "Tests check one pair of objects.",
     [W, C], [("id counter", W + ":CountedObject"), ("listing", C + ":CSGSurface"), ("hit attribution", C + ":CSGSurface.intersect")], ["surface_ids", "intersect"],
     AI + "evaluation of the id sets and of the ids attached to every hit", BASE)

prop("C31", "Plots show components and rays where they are",
     "A drawing places every component at its true coordinates in the chosen view, covers all of them (or the given bounds), and shows what a viewer facing that plane sees; an unknown view is refused. "
     "A plotted trace draws each recorded segment from start to end in the same view, colored by wavelength or by the source that emitted it, and source numbers name that source.",
     ["inputs", "configurations", "histories"], "every set of components, view, shading, bounds, color option and trace result", "Tests do not look at any plot.",
     [R, T], [("drawing", R + ":draw"), ("trace plot", T + ":RayTracer.show"), ("source numbers", T + ":RayTracer.calculate_source_ids")], ["draw", "RayTracer.show"],
     AI + "comparison of what is handed to the plotting library with the first surface a distant viewer sees and with the recorded segments",
     BASE + "Drawings of seven pixels across, at several positions on all sides of the origin; pixels within 1e-5 of an outline may go either way.")

prop("C32", "Vectors, rays, roots and outlines obey their algebra",
     "Points and vectors read back what was written, keep their kind under defaults, and normalize to unit length in the same direction; rays and bundles hold their parts independently of the values they were built from. "
     "Quadratic roots solve their equation or report that there are none, including linear and constant equations; products are taken along the right axis, and a point is in an outline exactly if it lies within it.",
     ["inputs"], "every coordinate, coefficient and outline size", "Tests use particular numbers.",
     [P, O], [("coordinates", P + ":HomogeneousCoordinate"), ("rays", P + ":Ray"), ("roots", O + ":binomial_root"), ("outlines", P + ":Shape2D")], ["Point", "Vector", "Ray", "binomial_root", "point_in_shape"],
     AI + "normal form and value numbering against the defining equations", BASE)

GM = "tinygfx/g3d/materials/"
prop("C33", "Colors and shading follow the shading model",
     "Each channel of a color reads back what was written to it, named colors and materials have the colors their names say, and a material built without colors has its own. "
     "The shade of a point blends the material's warm and cool tones (its own color mixed into each) by the angle between the surface normal and the light, for any number of points and lights, and changes nothing it is given.",
     ["inputs", "histories"], "every color, mix, normal, light position, number of points and number of lights", "Tests never look at a color a shader returns.",
     [G, GM + "color.py"], [("shading formula", G + ":GoochMaterial.shade"), ("channels", GM + "color.py:RGBAColor")], ["GoochMaterial.shade", "RGBAColor"],
     AI + "comparison with the shading formula", BASE + "One to three lights.")

prop("C34", "Results do not depend on where a system stands",
     "Moving, turning or uniformly enlarging a whole system (all sources and components together) gives the same table of results: the same rays meet the same surfaces in the same order with the same wavelength, index and intensity, "
     "and every segment is moved, turned and enlarged exactly as the system was.",
     ["inputs", "configurations"], "every rigid motion and enlargement of every system of sources, shapes, compounds, lenses, mirrors and prisms", "Tests place their systems on the axis at the origin.",
     [T, CO, W, P, C, M], [("propagation", T + ":RayTracer._st_propagate"), ("pose of sources", CO + ":Source.generate_rays"), ("pose of shapes", W + ":TracerSurface.intersect"), ("culling", C + ":CSGSurface.intersect")],
     ["RayTracer.trace()"], AI + "comparison of the value graphs of two traces, one of the system and one of the moved system",
     BASE + "Eighteen systems with one or two interactions; hits within 1e-5 of each other may be exchanged.")

prop("C40", "Rounding never changes which surface a ray meets",
     "A ray that has just left a surface is not found to meet that surface again at the point it left, and a ray that grazes an edge or starts within rounding distance of a surface is still attributed to a surface it physically meets.",
     ["inputs"], "every ray within rounding distance of a surface, an edge or a previous hit", "Tests use round numbers far from edges.",
     [T, P, C], [("offset that lifts rays off a surface", T + ":RayTracer._st_interact"), ("tolerances", P)], ["RayTracer.trace()"], "", "")
NA = [dict(prop=PROPS.pop(), reason="The answer depends on the accumulated floating-point error of a whole chain of operations (coordinates up to 1e6, a fixed offset of 1e-6 and tolerances of 1e-8), for which no static error bound in reach is small enough to be useful: "
           "the value graphs here are interpreted over the reals and deliberately disregard knife-edge points. What can be decided statically, that a hit at distance zero or behind is never taken, is part of C01.")]
