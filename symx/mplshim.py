"""Stand-ins for the few matplotlib objects whose geometry is followed symbolically: a patch knows its path and
transform (points on its outline), a 3D collection keeps the vertices it was given."""
import math

import numpy as np

from . import npshim

MOVETO, LINETO, CLOSEPOLY = 1, 2, 79


class Path:
    def __init__(self, vertices, codes=None):
        self.vertices = npshim.np_array(vertices)
        self.codes = codes


class Transform:
    def __init__(self, f):
        self.f = f

    def transform_path(self, path):
        return Path([self.f(v) for v in path.vertices], path.codes)

    def transform(self, pts):
        return npshim.np_array([self.f(v) for v in pts])


class Patch:
    def __init__(self, *a, **k):
        self.kw = k

    def get_facecolor(self):
        return (0, 0, 0, 1)

    get_edgecolor = get_facecolor

    def get_transform(self):
        return self.get_patch_transform()

    def get_verts(self):
        return self.get_patch_transform().transform_path(self.get_path()).vertices


class Circle(Patch):
    def __init__(self, xy, radius=5, **k):
        super().__init__(**k)
        self.center, self.radius = xy, radius

    def get_path(self):
        n = 8
        vs = [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)] for i in range(n)]
        return Path(vs + [vs[0]], [MOVETO] + [LINETO] * (n - 1) + [CLOSEPOLY])

    def get_patch_transform(self):
        return Transform(lambda v: [self.center[0] + self.radius * v[0], self.center[1] + self.radius * v[1]])


class Ellipse(Circle):
    def __init__(self, xy, width, height, angle=0, **k):
        Patch.__init__(self, **k)
        self.center, self.w, self.h, self.angle = xy, width, height, angle

    def get_patch_transform(self):
        if self.angle:
            raise npshim.Unsupported("tilted ellipse")
        return Transform(lambda v: [self.center[0] + self.w * v[0] / 2, self.center[1] + self.h * v[1] / 2])


class Rectangle(Patch):
    def __init__(self, xy, width, height, angle=0.0, rotation_point="xy", **k):
        super().__init__(**k)
        if angle:
            raise npshim.Unsupported("tilted rectangle patch")
        self.xy, self.w, self.h = xy, width, height

    def get_path(self):
        return Path([[0, 0], [1, 0], [1, 1], [0, 1], [0, 0]], [MOVETO, LINETO, LINETO, LINETO, CLOSEPOLY])

    def get_patch_transform(self):
        return Transform(lambda v: [self.xy[0] + self.w * v[0], self.xy[1] + self.h * v[1]])


class Polygon(Patch):
    def __init__(self, xy, closed=True, **k):
        super().__init__(**k)
        self.xy, self.closed = [list(v) for v in xy], closed

    def get_path(self):
        n = len(self.xy)
        return Path(self.xy + ([self.xy[0]] if self.closed else []),
                    [MOVETO] + [LINETO] * (n - 1) + ([CLOSEPOLY] if self.closed else []))

    def get_patch_transform(self):
        return Transform(lambda v: v)


class PathPatch3D(Patch):
    pass


class Patch3D(Patch):
    pass


class Poly3DCollection:
    def __init__(self, verts, *a, **k):
        self.verts, self.kw = verts, k

    def set_verts(self, verts, closed=True):
        self.verts = verts

    def __getattr__(self, n):
        if n.startswith("set_"):
            return lambda *a, **k: None
        raise AttributeError(n)


MODULES = {
    "matplotlib.patches": dict(Patch=Patch, Circle=Circle, Ellipse=Ellipse, Rectangle=Rectangle, Polygon=Polygon),
    "mpl_toolkits.mplot3d.art3d": dict(PathPatch3D=PathPatch3D, Patch3D=Patch3D, Poly3DCollection=Poly3DCollection),
    "matplotlib.path": dict(Path=Path),
}
