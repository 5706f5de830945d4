"""Interpreted prelude shared by the harnesses (client programs of the public API, evaluated abstractly)."""

STUBS = '''
import numpy as np
import pyrayt
import pyrayt.materials
import tinygfx.g3d as cg
import tinygfx.g3d.primitives as prims
from tinygfx.g3d.world_objects import TracerSurface


class Prim(prims.SurfacePrimitive):
    """a surface primitive with arbitrary (uninterpreted) hit distances and normals"""
    def __init__(self, name, kinds):
        super().__init__()
        self.name = name
        self.kinds = kinds
        self.bounding_points = np.array([[-50., 50.], [-50., 50.], [-50., 50.], [1., 1.]])

    def intersect(self, rays):
        rays = np.atleast_3d(rays)
        cols = np.concatenate((rays[0], rays[1]), axis=0)
        return np.stack([UFALL("hit_%s_%d" % (self.name, k), kind, cols) for k, kind in enumerate(self.kinds)], axis=0)

    def normal(self, coords):
        coords = np.atleast_2d(coords)
        out = np.zeros(coords.shape)
        for i in range(3):
            out[i] = UFALL("nrm_%s_%d" % (self.name, i), "real", coords)
        return out


class Stub(TracerSurface):
    surface = Prim

    def __init__(self, name, kinds, material):
        super().__init__((name, kinds), material)


class Pair(cg.world_objects.Intersectable):
    """a component made of two surfaces: all hits of both, in the order in which the ray meets them"""
    def __init__(self, a, b):
        super().__init__()
        self.parts = (a, b)

    def intersect(self, rays):
        ha, sa = self.parts[0].intersect(rays)
        hb, sb = self.parts[1].intersect(rays)
        h, s = np.vstack((ha, hb)), np.vstack((sa, sb))
        order, cols = np.argsort(h, axis=0), np.arange(h.shape[-1])
        return h[order, cols], s[order, cols]

    @property
    def surface_ids(self):
        return self.parts[0].surface_ids + self.parts[1].surface_ids


class Mat(pyrayt.materials.TracableMaterial):
    """arbitrary material: direction, index and intensity after the interaction are functions of the incoming ray"""
    def __init__(self, name, index=True, intensity=None):
        super().__init__()
        self.name = name
        self.index = index
        self.intensity = intensity
        self.calls = 0

    def trace(self, surface, ray_set):
        self.calls += 1
        pos = ray_set.rays[0]
        v = ray_set.rays[1]
        cols = np.concatenate((pos[:3], v[:3], ray_set.index[np.newaxis], ray_set.wavelength[np.newaxis]), axis=0)
        sid = surface.get_id()
        new = np.zeros(v.shape)
        for i in range(3):
            new[i] = UFALL("dir_%s_%d" % (self.name, i), "real", cols)
        new[:3] /= np.linalg.norm(new[:3], axis=0)
        kill = UFALL("kill_%s" % self.name, "choice:0,1,1,1,1,1", cols)
        idx = UFALL("idx_%s" % self.name, "pos", cols)
        if self.intensity is not None:
            ray_set.intensity = UFALL("pow_%s" % self.name, self.intensity, cols)
        ray_set.rays[1] = new * kill
        if self.index:
            ray_set.index = idx
        return ray_set


class Src:
    """a source of arbitrary rays (unit directions)"""
    def __init__(self, name, intensity=(100., 40.)):
        self.name = name
        self.intensity = intensity
        self.asked = None

    def generate_rays(self, n_rays):
        self.asked = n_rays
        n = n_rays
        rs = pyrayt.RaySet(n)
        nm = self.name
        u = LVAR(nm + "u", n, -3, 3, (0, 1e-5, -3.141592653589793, 1.5707963267948966), 0.3)
        w = LVAR(nm + "w", n, -3, 3, (0, 1.5707963267948966, 2.356194490192345, -0.7853981633974483), 0.2)
        rs.rays[0, 0] = LVAR(nm + "px", n)
        rs.rays[0, 1] = LVAR(nm + "py", n)
        rs.rays[0, 2] = LVAR(nm + "pz", n)
        rs.rays[1, 0] = np.sin(u) * np.cos(w)
        rs.rays[1, 1] = np.sin(u) * np.sin(w)
        rs.rays[1, 2] = np.cos(u)
        rs.wavelength = LVAR(nm + "wl", n, 0.4, 0.7)
        rs.intensity = LCHOICE(nm + "pow", n, self.intensity)
        rs.index = LVAR(nm + "ri", n, 1, 2)
        return rs


class SrcRef:
    """the same rays again, as plain arrays (used by the specification)"""
    pass


def unit(v):
    return v / np.linalg.norm(v, axis=0)
'''

# hit value families of different components are disjoint: no ties between components; some values are only just apart, or are
# not ahead of the ray, or barely so
FAM = [
    ("choice:-1.5,-0.25,0.5,1.25,2.5,26000,inf", "choice:-1.75,0.375,1.1249,3.5,inf,inf"),
    ("choice:-1.6,0.4499,0.7,1.3,2.6,inf", "choice:-2.5,-0.15,0.8,3.1,8000000,inf,inf"),
    ("choice:-0.9,0.2,0.9,1.6,2.4998,inf", "choice:-3,0.7002,1.45,2.2,inf,inf"),
    ("choice:-0.8,0,3e-7,0.4501,1.2501,inf", "choice:-4,4e-7,0.5003,2.3,inf,inf"),
] + [("choice:%s,%s,inf,inf" % (0.21 + 0.13 * ((7 * k) % 9), 3.01 - 0.07 * k),) for k in range(9)]
