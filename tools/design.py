"""fills the tables of DESIGN.md between their markers: python3 tools/design.py"""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
 "C01": ("Sphere.test_intersect runs on a symbolic sphere and ray (foot point, offset and radius free in a local frame)",
         "the two roots of the quadratic along the line, written down independently from foot distance and half chord", "1 s"),
 "C02": ("every flat shape and every optic built on one runs on a ray aimed at a free point of its plane",
         "that point, the outline inequalities in tangent coordinates, and the frame's normal", "15 s"),
 "C03": ("InfiniteCylinder runs for an axis in general direction and for +-z (where the code rotates by the identity or half a turn)",
         "the planar quadratic in coordinates across the axis, and the radial vector", "3 s"),
 "C04": ("Ray.reflect and do_intersect/run of every reflecting optic, incident angle free",
         "r = i - 2(i.n)n in the frame's own coordinates; DMD: about its tilted normal, at the place of the mirror", "1 s"),
 "C05": ("Ray.refract('snells_law') and the faces of ball lenses and solids, indices 0.2..5 free",
         "eta1 sin = eta2 sin on the same side of the normal, mirrored beyond the critical angle", "3 s"),
 "C06": ("ideal lens, general ray from either side, f of either sign; conjugate points with free object distance",
         "the image of the focal-plane point, 1/s + 1/s' = 1/f with transverse magnification", "8 s"),
 "C07": ("collimating and focusing lenses, alone and in a run", "direction along the axis, crossing at the focal point", "1 s"),
 "C08": ("Grating.do_intersect, each order, incidence and conical angle free, gratings with and without an order of their own",
         "sin a + sin b = G m lambda in the dispersion plane; groove component kept", "2 s"),
 "C09": ("Ray.run over stub optics that answer anything on every leg, and over pairs of real optics in both list orders",
         "minimum of the answered distances", "4 s"),
 "C10": ("Ray.run over a stub optic that hits anywhere, turns, stops or ignores the ray; two and three successive runs",
         "a hand-kept account of the path: sum of legs, history, budget, reason for stopping", "4 s"),
 "C11": ("sequences of rays onto a detector, behind mirrors and lenses, in one or two runs; two detectors; faerie fire",
         "crossing point and wavelength from the construction of the rays", "5 s"),
 "C12": ("test_tree_point, Compound and get_index_at_point over all operators and all trees of three parts",
         "the Boolean formula of the membership inequalities of the parts", "10 s"),
 "C13": ("test_tree_intersect over all operators, spheres and cylinders, ray start anywhere",
         "the first change of the Boolean formula along the line, from the sorted crossings of the parts", "30 s"),
 "C14": ("concave and convex mirrors: hits, and what the focus and the centre of curvature do", "sphere equation; focus at R/2 (paraxial bound), centre to itself", "5 s"),
 "C15": ("rays through ball lenses and solids: both faces, axial, from inside, totally reflected, solids of two spheres",
         "chord geometry and Snell's law at both faces", "10 s"),
 "C16": ("all matrix builders on free axes, angles and vectors", "orthogonality, determinant 1, axis fixed, a onto b, quarter turn sense; entries of 4x4 matrices", "1 s"),
 "C17": ("angle_between, unit_vector, distance_between, project_onto_plane", "cos and sin of the angle from dot and cross products; residual along the normal", "2 s"),
 "C18": ("every optic meets a ray; all arrays and attributes reachable from scene, arguments and module are compared before and after",
         "equality (deep snapshot), and a second ray behaves as the first did", "5 s"),
 "C19": ("image_rays on free sizes and angles; add_faerie_fire_rays with the random numbers replaced by free reals (and zeros)",
         "grid and angle formulas; distance to the centre and direction to it", "4 s"),
 "C20": ("conversions on a free wavelength; each colour branch with its neighbours at the seams", "hc/e, monotony, unit cube, one-sided limits", "4 s"),
 "C21": ("to_precision on a free number, forked over decades, digits as symbolic integers", "half a unit of the last digit, digit count, format rules", "5 s"),
 "C22": ("set_axes_equal on free limits (also inverted)", "common length, middles, containment", "1 s"),
 "C23": ("delete_files_with_extension on a paper directory tree whose names are symbolic characters; links; os is a recorder, nothing real is touched",
         "names ending in the extension, files only, place", "14 s"),
 "C24": ("array helpers on free arrays; sampling rate free", "exact least-squares weights by rational elimination; window means; minimality", "4 s"),
 "C25": ("constructors with free sizes and every missing/conflicting combination", "D = 2R, corner formulas, ValueError exactly when refused", "3 s"),
 "C26": ("draw of every optic on recording matplotlib stand-ins", "drawn vertices lie on the optic (plane, radius, corners)", "4 s"),
 "C27": ("BinaryTree with sequences of insertions, postOrderEval", "the list of parts in order; the printed formula parsed and evaluated on every truth assignment", "2 s"),
 "C28": ("repr/str of everything on free coordinates", "five significant digits of each coordinate, in place", "6 s"),
 "C29": ("run, turn the ray round, run again", "the first path backwards", "50 s"),
 "C30": ("scenes of two and three optics", "dihedral angle, retroreflection, products of 2x2 ray matrices, folded mirror image", "60 s"),
 "C31": ("every optic meets a ray, quiet and printing", "state before equals state after; unit length; history ends", "8 s"),
 "C32": ("get_nQ and sackurTetrode with free temperature, mass, density", "the formula; scaling laws by exp/log laws", "1 s"),
 "C90": ("FD_int_approx and FD_int_num with w = exp(eta) free inside narrow cells",
         "between tangent and chord (F is convex in eta, concave in w) with end values from mpmath's polylogarithm", "60 s"),
    "C33": ("two optics (or one optic and its moved, scaled, mirrored copy) meet the same symbolic light, through Ray.run", "the two histories, directions and records are equal (mapped)", "60 s"),
 "C34": ("test_intersect of planes, rectangles, spheres and cylinders with each rounding error a variable bounded by half an ulp (absolute bounds from interval arithmetic)", "the exact crossings, from the offset and half chord", "120 s"),
 "C91": ("log_interp1d on 2 to 4 free points (scipy's linear spline replaced by its definition)", "power law through the neighbours", "15 s"),
 "C92": ("number tables with one free number, fixed neighbours of both signs and zeros", "rows, columns, value of every field", "9 s"),
}
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
rows = ["| property | what runs | oracle | bounds | quick cost |", "|---|---|---|---|---|"]
for p in P:
    h = HOW[p["id"]]
    rows.append(f"| {p['id']} {p['title']} | {h[0]} | {h[1]} | {p['quantifier']['text']} | {h[2]} |")
missed = {}
seeds = ["| change | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json")), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
path = os.path.join(V, "DESIGN.md")
s = open(path).read()
for name, body in (("PROPERTY-TABLE", rows), ("SEEDED-TABLE", seeds)):
    s = re.sub(rf"<!-- {name} -->.*?<!-- end -->", lambda _: f"<!-- {name} -->\n" + "\n".join(body) + "\n<!-- end -->", s, flags=re.S)
open(path, "w").write(s)
