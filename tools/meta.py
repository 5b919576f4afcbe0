"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; both are committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O, GO, G, S = "optics3d.py", "general_optics.py", "general.py", "Shapes/shapes.py"
TECH = ("symbolic execution of the real functions (imported from /repo's current source, numpy shimmed by exact "
        "symbolic reals), path conditions and assertions decided by Z3/cvc5; counterexamples replayed on the real code")
EX = "exact real arithmetic, every path within the stated input bounds"

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, note=note, na=na, observe=list(observe)))


prop("C01", "A sphere reports exactly the forward crossings of a ray",
     "For any sphere and any ray, the ray/sphere test reports exactly the points of the sphere's surface that lie ahead "
     "of the ray's start, nearest first: two from outside, one from inside, none when the ray passes by or the sphere "
     "lies behind. Each reported point comes with the unit surface normal pointing to the centre, and the crossing "
     "count is even from outside and odd from inside. It does not matter whether the sphere was given by radius or "
     "diameter, or how long the ray's direction vector was. A sphere the ray stands on (to within rounding, 2e-11) is not met there again.",
     "all centres, radii 0.001..1000, starts, directions; symbolic reals in a local frame",
     "test_sphereintersect samples five rays at one sphere; the law must hold for every start, direction and radius, "
     "including starts inside, behind and grazing", [S],
     [("Sphere.test_intersect", S + " Sphere"), ("check_R_and_D", S)])
prop("C02", "Flat surfaces are hit exactly where the ray crosses their outline",
     "A plane, a round disc, a rectangle, and every flat optic built on them (round and rectangular mirrors, DMDs, "
     "gratings, detectors, disc lenses) is hit exactly when the ray's forward line crosses the plane inside the "
     "outline: half the diameter for discs, half the height along the tangent and half the width along the third axis "
     "for rectangles. The reported point is that crossing (on the plane, on the ray's line, ahead of the start) and "
     "the reported normal is the surface's unit normal, whatever the lengths of the given normal, tangent and direction.",
     "all orientations, positions |c|<=1000, sizes 0.001..1000, vector lengths 0.01..100",
     "test_rectangleintersect samples a few axis-aligned rays; outline, tilt and size combinations are unbounded",
     [S, O], [("Plane/Circle/Rectangle.test_intersect", S), ("test_intersect of Mirror, Lens, Grating, Detector", O)])
prop("C03", "Infinite cylinders: crossings, membership and normals for any axis",
     "For a cylinder about any axis, the ray test reports exactly the forward crossings with its side, nearest first, "
     "each with the unit normal pointing at the axis, and an even crossing count from outside, odd from inside; a ray "
     "along the axis direction never hits the side. A point counts as inside exactly when its distance from the axis "
     "is less than the radius. Radius/diameter and the length of the axis vector make no difference. A cylinder the ray stands on (to within rounding, 2e-11) is not met there again.",
     "axis any direction (and exactly +z, -z), radius 0.01..1000, all starts and directions",
     "no test covers cylinders at all; the object-space transform must be right for every axis direction",
     [S, GO], [("InfiniteCylinder.test_intersect/test_point", S), ("rotation_matrix4, scaling_matrix4, translation_matrix4", GO)])
prop("C04", "Specular reflection: the ray is mirrored about the surface normal",
     "Light reflected by any mirror (flat round, rectangular, concave, convex, reflecting solid, grating in order 0) "
     "leaves with its direction mirrored about the normal at the hit, for normals of any length and either "
     "orientation; the ray stays where it is and its direction stays a unit vector. A DMD mirrors about its "
     "micromirror normal instead of its surface normal. Through a full run the turned segment starts at the crossing "
     "and uses up exactly the remaining distance.",
     "all directions, normals of length 0.001..1000, both orientations, all mirror kinds",
     "no test exercises reflection; orientation and normalisation mistakes only show for particular vectors",
     [O], [("Ray.reflect (specular_flat)", O), ("Mirror/Compound/Grating.do_intersect", O)])
prop("C05", "Refraction obeys Snell's law, with total internal reflection",
     "At a refracting surface with indices n1 (coming from) and n2 (going into), light leaves in the plane of incidence "
     "on the far side with n1 sin(in) = n2 sin(out) and unit direction; exactly beyond the critical angle it is "
     "mirrored instead. This holds for either orientation of the given normal. Ball lenses use the glass index inside "
     "and 1 outside; refracting solids use the index of the side the ray is going into.",
     "indices 0.2..5, every direction and normal, both orientations, lens and solid surfaces",
     "no test covers refraction; the law is about all angles and index pairs, including the critical angle",
     [O], [("Ray.refract (snells_law)", O), ("Lens.do_intersect, Compound.do_intersect", O)])
prop("C06", "Ideal lenses obey the thin-lens equation for every ray",
     "An ideal lens changes the transverse slope of any ray by minus the off-axis distance over the focal length, from "
     "either side, at any height and tilt, for converging and diverging lenses; the ray goes on through the lens with "
     "unit direction. Hence all rays from an object point at distance s meet (or seem to) at the conjugate point "
     "1/s + 1/s' = 1/f with magnification -s'/s, including objects inside the focal length "
     "(virtual images).",
     "any lens orientation, 1<=|f|<=1000, heights up to 200, |cos| at least 1e-3; conjugates via the run loop",
     "no test traces a lens; imaging must be exact for all heights, tilts and distances",
     [O], [("Ray.refract (thin_lens)", O), ("Lens.do_intersect", O)])
prop("C07", "Collimating and focusing lenses do exactly that, from either side",
     "A collimating lens sends every ray out along its axis, in the sense it was travelling; a focusing lens sends "
     "every ray to the focal point at distance f behind it, as seen by the travelling ray. The ray stays on the lens "
     "and its direction stays a unit vector.",
     "any orientation, focal length 1..1000, aperture 200, both travel senses",
     "no test covers these lens types; side and offset dependence is unbounded",
     [O], [("Ray.refract (ideal_collimate, ideal_focus)", O)])
prop("C08", "Gratings diffract by the grating equation in every order",
     "In the plane across the grooves, light of wavelength lambda arriving at angle alpha leaves order m at the angle "
     "beta with sin(alpha) + sin(beta) = G m lambda (G in grooves/mm, lambda in nm; positive orders turn back towards "
     "the incident light), m being the order of the ray, whatever order the grating was given, for light from either side of the normal; order 0 reflects specularly. The direction stays "
     "a unit vector and its component along the grooves is unchanged.",
     "orders -2..2 (thorough -5..5), groove densities 1..3000/mm, 100..2000 nm, all incidence and conical angles that propagate",
     "no test covers gratings; sign conventions only show for particular angle/order combinations",
     [O, GO], [("Ray.reflect (grating)", O), ("angle_between, project_onto_plane, rotation_matrix_axis_angle", GO)])
prop("C09", "The nearest optic along the ray acts, whatever the scene order",
     "At every step of a run, the first and later ones, the optic with the nearest crossing (within the remaining distance and, to within 2e-11, not at the ray's "
     "own position) is the one that acts, with its own point, normal and side, whatever the order of the scene list. "
     "Annotations, filters and windows never act.",
     "up to 4 optics hitting or missing at arbitrary distances in arbitrary list order, and pairs of real optics",
     "the tests trace no scene with more than one optic; the guarantee quantifies over all scenes and orders",
     [O], [("Ray.run", O)], over=("inputs", "configurations"))
prop("C10", "A run flies straight, at most the given distance, recording every point",
     "A run moves the ray along straight segments in its current direction; the history starts at the start and gains "
     "one point per interaction plus the final free segment, and the total flown never exceeds max_distance, with all "
     "unused distance flown straight at the end. At most max_interactions interactions happen; a stopped ray does not "
     "move again, in this run or later ones, and a later run continues where the first one ended. Faerie-fire rays "
     "stop on the first thing they touch without interacting.",
     "histories of up to 4 arbitrary interactions (turn, stop or ignore at arbitrary distances) and of 24 turns (48 thorough), two successive runs",
     "the tests never call run; the guarantee is about every interaction history",
     [O], [("Ray.run, Ray.fly", O), ("Ray.get_plot_repr", O)], over=("histories", "inputs"),
     note="known finding: Block optics have no test_intersect")
prop("C11", "A detector records each arriving ray once, in order, and stops it",
     "Every ray that reaches a detector's sensitive area within its path length is recorded as one entry (x, y, z of "
     "the crossing, wavelength), in order of arrival, and stops there; rays that miss leave no entry and fly on. Each "
     "detector keeps its own log; faerie-fire rays stop but leave no entry.",
     "sequences of up to 3 rays from either side of a detector of any size and orientation; two detectors",
     "no test uses a detector; records depend on the history of rays", [O],
     [("Detector.do_intersect / hit_data", O)], over=("histories", "inputs"))
prop("C12", "Solids contain a point exactly when their Boolean combination does",
     "For a solid built as a tree of unions, intersections and differences of spheres and cylinders, a point is inside "
     "exactly when the Boolean combination of the primitives' insides says so, whatever the nesting. The refractive "
     "index at a point is that of the first optic of the scene containing it, and the world's index 1 elsewhere.",
     "single primitives, trees of depth up to 3 with every operator combination (thorough) and three of depth 4, arbitrary centres, radii and points",
     "script_testBinaryTree only prints a tree; membership must hold for all points and trees",
     [GO, S, O], [("test_tree_point, operCsgIndex*", GO), ("get_index_at_point", O), ("test_point", S)],
     over=("inputs", "configurations"))
prop("C13", "A solid is hit where the ray first enters or leaves it",
     "A ray meets a union, intersection or difference of two primitives (spheres, cylinders) at the first point ahead "
     "where it enters or leaves the combined solid, from outside or from inside, with the normal of the primitive "
     "surface crossed there; it misses exactly when nothing is entered or left ahead. The same holds for nested "
     "unions approached from outside. A surface the ray stands on (to within rounding, 2e-11) is not met there again.",
     "all arrangements of two primitives (three in nested unions) with crossings at least 1e-4 apart",
     "no test checks a solid; the interval logic has many order cases that samples do not reach",
     [GO, O], [("operCsgUnion/Intersect/Difference, helper_findIntersects, test_tree_intersect", GO)],
     over=("inputs", "configurations"), note="known finding: nested trees other than unions")

prop("C14", "Curved mirrors focus where their radius says",
     "A concave mirror is hit at the crossing with its sphere (centre R along the normal, R = 2 f) on the disc's side, a "
     "convex one on the outer side, both only within the aperture, with the sphere's unit normal there. A ray parallel to "
     "the axis of a concave mirror crosses the axis R/(2 cos theta) from the centre; a ray through the centre of "
     "curvature comes back on itself.",
     "any orientation, radius 0.1..1000, aperture, start and direction at least 1e-3 from grazing",
     "no test touches curved mirrors; which of two crossings is taken depends on every length involved", [O, S],
     [("Mirror.test_intersect (circular_concave/convex_spherical)", O), ("Ray.run, Ray.reflect", O)])
prop("C15", "Light travels through glass bodies by Snell's law at both faces",
     "A ray run through a ball lens or a refracting solid (union, intersection, difference of spheres) enters with the "
     "glass index, crosses the glass in a straight line and leaves with the inverse refraction, or is held inside by "
     "total internal reflection (outside it, when its index is below the surroundings'); the deviation of a ball is that of ray optics, an axial ray is undeviated, and every "
     "face refracts by its own normal and the indices of its two sides.",
     "ball and solid radii, indices 1/4..4, impact parameters in the stated ranges; two faces",
     "needs refraction, intersection and index lookup to agree over a whole history; no test runs one", [O, S, GO],
     [("Ray.run, Ray.refract", O), ("Lens.do_intersect, Compound.do_intersect", O), ("get_index_at_point", O)],
     over=("inputs", "histories"))
prop("C16", "Rotation, scaling and translation matrices do what their names say",
     "The axis/angle matrix is a proper rotation that leaves the axis fixed and turns every perpendicular vector by the "
     "angle; the vector-to-vector matrices (3x3, 4x4 and the one that lays drawn patches onto a plane) are proper "
     "rotations carrying the first direction onto the second, also when the two are equal, opposite, or within rounding "
     "of either, and for vectors of any length; the 4x4 scaling and translation matrices act on homogeneous points as such.",
     "any axis, any angle in -7..7, any pair of directions and vector lengths",
     "test_axisanglerot samples a few axes; the (anti)parallel neighbourhood is where such code fails", [GO],
     [("rotation_matrix_axis_angle, rotation_matrix2, rotation_matrix4, rotation_matrix, scaling_matrix4, translation_matrix4", GO)])
prop("C17", "Angles, distances and projections are geometrically right",
     "angle_between gives the angle between two directions in 0..pi regardless of vector lengths (and the signed angle "
     "about a normal of any length, positive from the second vector round to the first), never NaN from rounding at 0 or pi; unit_vector has length one "
     "and the same direction; distances are symmetric; projecting onto a plane removes exactly the normal part.",
     "any two directions and lengths 0.01..100; components within 1000",
     "tests sample a few pairs", [GO], [("angle_between, unit_vector, distance_between, project_onto_plane", GO)])
prop("C18", "Tracing changes nothing but the ray and the detector logs",
     "Running a ray leaves every optic (position, normal, sizes, indices, solid trees), the caller's arrays and other "
     "rays exactly as they were, the ray's recorded points and directions are never overwritten later, and a ray's "
     "path does not depend on which rays were traced before it through the same scene.",
     "every kind of optic, ray positions and directions symbolic, a second ray traced in between",
     "aliasing shows only for particular histories (shared arrays, in-place updates); tests run one ray per scene",
     [O, S, GO], [("Ray.__init__, Ray.run, Ray.update_position", O), ("do_intersect/test_intersect of every optic", O)],
     over=("inputs", "histories"))
prop("C19", "Ray bundles start where and head where they should",
     "image_rays gives one ray per grid point and angle: origins on the stated square grid in the plane y = y_center, "
     "unit directions in the yz plane spread evenly over +-angle, wavelengths by the circle pattern; resolutions below "
     "1 are refused. add_faerie_fire_rays adds exactly the requested number of rays, each starting on the sphere of the "
     "given radius and aimed at its centre with a unit direction, marked as faerie fire; rays already in the list stay, in order.",
     "any centre, size, angle, pattern diameter; resolutions up to the stated ones; any random draws",
     "no test touches either", [GO, O], [("image_rays", GO), ("add_faerie_fire_rays", O)], over=("inputs", "configurations"))
prop("C20", "Wavelength, photon energy and colour conversions are consistent",
     "Wavelength to energy and back is the identity, energy falls as wavelength grows, 1239.84 eV nm holds; the colour of "
     "any wavelength lies in the unit cube, wavelengths outside the range take the colour of its ends, and the colour changes "
     "continuously with wavelength.",
     "1..1e6 nm or eV; colour: every wavelength, gamma, floor and ceiling in the stated ranges",
     "no test; band edges and clamps need every wavelength", [G],
     [("wavelength_nm_to_energy_eV, energy_eV_to_wavelength_nm, wavelength_to_rgb", G)])
prop("C21", "to_precision shows p significant digits of the number",
     "to_precision(x, p) is a decimal number within half a unit of the p-th significant digit of x, has exactly p significant "
     "digits, carries the sign of x, and reads back as a number for every finite x; zero gives p - 1 decimals and NaN gives NaN.",
     "every magnitude in the stated decades, either sign, p in 1..8",
     "digit boundaries (999.95, powers of ten) are exactly what samples miss", [G], [("to_precision", G)])
prop("C22", "Equal 3D axes keep everything in view at one scale",
     "After set_axes_equal the three axis ranges have one common length, the longest of the old ones, each around its old middle, "
     "so that everything visible before stays visible; set_axes_radius sets the stated cube.",
     "any six limits, some inverted", "needs no display; every order of ranges", [G], [("set_axes_equal, set_axes_radius", G)])
prop("C23", "Deleting by extension removes exactly the matching files, only where asked",
     "delete_files_with_extension removes every file directly in the folder whose name ends with the extension and, only when asked, "
     "those in its subfolders; it removes nothing else: no other names, no folders (even when named like a match), nothing "
     "outside the folder, also not through links.",
     "names of up to 4 symbolic characters or dots, two or three files and a subfolder, either mode",
     "a destructive function with no test; what must not be deleted is every other name", [G],
     [("delete_files_with_extension", G)], over=("inputs", "configurations"))
prop("C24", "Nearest element, moving average and Savitzky-Golay filter compute what they name",
     "find_nearest returns an index of an element no farther from the target than any other, and that element; the moving "
     "average of N is the mean of the N samples around each point (for an even N one more before it than after; beyond the ends, zeros), as long as the data; away from the ends the Savitzky-Golay output is the value "
     "(or asked derivative, scaled by the rate) of the least-squares polynomial through the window, constants and rising straight lines stay what they are "
     "up to the ends, and even or too short windows are refused. None changes its data.",
     "every data value; lengths, windows, orders and derivatives up to the stated ones",
     "no test; linear filters are decided exactly for all data", [G], [("find_nearest, movingAverageFast, savitzky_golay", G)],
     over=("inputs", "configurations"))
prop("C25", "Surfaces and optics are built consistently or refused",
     "Round surfaces keep D = 2R whichever is given and refuse neither or conflicting ones; rectangles and the optics on them keep "
     "the given height, width and place, unit normal and tangent, have four corners half the height along the tangent and half the width across, "
     "in order round the outline, and refuse missing or negative sizes and tangents not perpendicular to the normal; unknown "
     "shapes, surface behaviours, reflection and refraction kinds are refused with ValueError.",
     "any place, orientation, vector lengths, sizes 0.001..1000", "tests build a few axis-aligned objects", [S, O],
     [("check_R_and_D, check_h_and_w, constructors", S), ("constructors of Mirror, Lens, Grating, Detector; Ray.fly/reflect/refract", O)])
prop("C26", "Optics are drawn where they are",
     "The 3D outline of a disc optic lies in its plane with every edge point half the diameter from its position; the outline of "
     "a rectangular optic is exactly the one that can be hit, tangent included; balls and convex mirrors are drawn as the full sphere "
     "of their diameter; the flat views mark the optic's own coordinates; lifting a flat patch onto a plane keeps lengths and "
     "angles and translating moves every point by the given amount.",
     "any place, orientation, vector lengths, sizes; matplotlib axes replaced by a recorder", "no test draws; the script checks are by eye", [O, GO],
     [("draw of Mirror, Lens, Grating, Detector", O), ("pathpatch_2d_to_3d, pathpatch_translate, rotation_matrix", GO)])
prop("C27", "Solid trees: insertion keeps every part and the printed formula is true",
     "A tree of solids keeps what is put into it: inserting on a side that is taken pushes the existing child one level "
     "down on that same side, so nothing is lost, and the operation at the root can be changed afterwards. The tree "
     "contains a point exactly when its parts and operations say so, and the text postOrderEval prints for it, read as a "
     "bracketed formula with u, n and \\ for union, intersection and difference, is true at exactly the points inside.",
     "trees of up to three parts, every operation, three insertion orders; any centres, radii and points",
     "the binary tree script prints two trees for a human to look at; that print, structure and membership agree is a "
     "statement about all points",
     [GO], [("BinaryTree, postOrderEval, test_tree_point", GO)])
prop("C90", "Fermi-Dirac integrals are accurate",
     "FD_int_approx gives the Fermi-Dirac integral of order 1/2 (with the factor Gamma(3/2)) to one part in 10000 for every "
     "argument (one in 500000 above 10), and no number (nan) for other orders. FD_int_num gives the integral of any order, 'script' normalised or 'roman' (times "
     "Gamma(j+1), the default): by quadrature between -20 and 20, refining until the last change is below tol or Nmax is "
     "reached and returning that refinement with its count and error, and by the classical limit exp(eta) below -20 and the "
     "degenerate limit eta^(j+1)/Gamma(j+2) above 20.",
     "approximation: -600..1e9; quadrature: orders -1/2, 1/2, 3/2 at 14 (thorough 20) refinements for -20..-9 to 1e-5, 5e-5, 6e-4 and for -5..1 (..2) to 0.2% (6e-4); limits: -600..1e6",
     "tests never call these; a wrong digit in one coefficient shows in one stretch of arguments only", [G],
     [("FD_int_approx, FD_int_num", G)])
prop("C32", "Quantum concentration and ideal-gas entropy follow their formulas",
     "get_nQ is (2 pi m kT / h^2)^(3/2) in cgs units with T in eV, for electrons unless another mass is given. sackurTetrode is "
     "N k (5/2 + log(nQ/n)): proportional to the volume at fixed density, up by 3/2 log k per particle when temperature or "
     "mass grow k-fold, down by log k when the density does.",
     "T 1e-3..1e5 eV, any mass, density, volume over many decades", "tests never call these", [G], [("get_nQ, sackurTetrode", G)])
prop("C33", "The same optic or scene described differently acts the same",
     "Two descriptions of one thing act alike on any light: a rectangle (mirror, grating, detector) with normal or tangent "
     "reversed, or turned a quarter with height and width exchanged; a grating in order 0, a DMD with flat micromirrors and "
     "a flat mirror; a disc and a rectangle where both or neither is hit; a convex mirror or ball lens and the same ball as a "
     "solid (united or intersected with itself or a ball inside or around it, or less a ball elsewhere); a rod with its axis given from any of its points, either way round; ideal and "
     "collimating lens for light from the focus, ideal and focusing lens for axial light. Only the directions of normals and tangents count, not their lengths, nor whether numbers come as integers or floats. A body less itself is nothing, glass of index 1 does "
     "nothing, and a scene moved, scaled or seen in a mirror turns the light alike there.",
     "any orientation and place, sizes 0.1..400, moved by up to 1000, scaled 0.1..10, mirrored in any plane (lenses and rods: coordinate planes)",
     "two descriptions go through different code; they must agree for every ray and size, ties of coincident surfaces included",
     [O, S, GO], [("test_intersect/do_intersect of Mirror, Lens, Grating, Detector, Compound; Ray.run", O),
                  ("operCsgUnion/Intersect/Difference", GO), ("Sphere, Rectangle, Circle", S)],
     over=("inputs", "configurations"))
prop("C34", "Crossings are right to within rounding, from near and far",
     "In double arithmetic (every sum, product, quotient and root off by up to half an ulp) planes, rectangles, spheres "
     "and cylinders report as many crossings as there are, each within 1e-11 of where it truly is, wherever the light starts. So "
     "the point a ray goes on from lies on the surface it met, far nearer than the distance (1e-10) below which a ray "
     "counts as standing on a surface: no surface is met twice by rounding, and no second face is lost.",
     "light along a coordinate axis from up to 500 away; radius 0.05..10 (cylinders 1/16, 1, thorough 3, 10), a nineteenth of the radius off grazing; planes within 100; roundings are solver variables",
     "precision is lost for particular ratios of distance and size only; a few exact sample rays never show it",
     [S], [("test_intersect of Plane, Rectangle, Sphere, InfiniteCylinder", S)])
prop("C91", "log_interp1d interpolates linearly on log-log axes",
     "The function returned by log_interp1d passes through every data point, is the power law through its two neighbours "
     "between them (so its values stay between theirs), continues the end pieces outside the data, takes arrays point by "
     "point, and leaves the data as they were.",
     "2 to 4 (thorough 6) points, 1e-3..1e3, abscissae at least 1% apart", "tests never call it", [G], [("log_interp1d", G)])
prop("C92", "Number tables keep every number, ten to a row, in line",
     "prism10widetextarray writes the numbers in order, ten to a row, every row indented alike, each with the decimals of the "
     "format; in a fixed-point format the first digits of numbers of equal size line up whatever their signs, left pad and right pad apart, and nothing follows the tenth number of a row.",
     "1 to 25 numbers, one of them anything of size 0.001..9.9 at any place, fixed and scientific formats",
     "sign, rounding and row ends meet at particular values only", [G], [("prism10widetextarray", G)],
     note="nparray2spacedstring is not covered: numpy's own array2string does the work on machine floats")
prop("C28", "Optics, surfaces and rays print their place",
     "Every optic, ray and surface can be shown (repr and str) whatever its place, and what optics and rays show is their "
     "position and direction to five significant digits, with the sign; spheres show no normal.",
     "one coordinate free over the stated decades and signs, every kind of optic",
     "formatting breaks at particular magnitudes only", [O, GO, G], [("__repr__ of Optic, Mirror, Lens, Grating, Detector, Ray ...", O), ("to_precision", G)],
     over=("inputs", "configurations"))

prop("C29", "Light paths are reversible",
     "A ray that is turned round at the end of its path and run for the same distance through the same optics retraces it, "
     "corner by corner, back to its start: off flat, concave, convex and DMD mirrors, pairs of mirrors, through ideal lenses and ball lenses; refraction with the two indices "
     "exchanged undoes refraction; a grating sends diffracted light back in the same order when it left on the incident "
     "side of the normal and in the opposite order otherwise.",
     "any orientation and place, |c|<=100, legs 0.001..200, |cos| of incidence >= 0.01 (0.1 for curved mirrors and lenses)",
     "no test runs a ray at all; reversibility is a law over all paths", [O],
     [("Ray.run, reflect, refract; do_intersect of all optics", O)], over=("inputs", "histories"))
prop("C30", "Optics combined in one scene do together what their geometry says",
     "Two mirrors turn light by twice the angle between them about their common line; three mirrors at right angles send it "
     "back antiparallel, at the point opposite the corner; two ideal lenses on one axis act with the product of their ray matrices "
     "(so relays, telescopes and lenses in contact magnify as they should); a lens with a mirror in its focal plane returns light antiparallel; a "
     "mirror behind a lens folds the path onto its mirror image; a beam diffracted by a grating into a camera lens lands on one detector point. "
     "The order of the optics in the list makes no difference.",
     "any orientation, focal lengths 1..200 of either sign, separations 0.1..200, slopes up to 3, mirrors 0.01..200 apart",
     "no test traces a scene; the scripts are looked at by eye", [O],
     [("Ray.run over scenes of 2 and 3 optics", O), ("test_intersect/do_intersect of Mirror, Lens, Grating, Detector", O)],
     over=("inputs", "configurations"))
prop("C31", "A ray keeps its wavelength, order, kind and unit direction",
     "Whatever a ray meets (any mirror, lens, grating, detector or solid), its wavelength, diffraction order, kind and print "
     "setting stay, its direction stays a unit vector, its history begins at its start and ends where it is; only detectors stop "
     "ordinary rays, anything stops a faerie-fire ray, and a stopped ray still points the way it came. A quiet ray prints nothing, a printing one reports its run and flights, and printing changes nothing.",
     "every kind of optic, any orientation and place, wavelengths 400..700, slopes and incidence angles",
     "no test traces rays; silent changes of ray state only show for particular optics", [O],
     [("Ray.run, reflect, refract, fly", O), ("do_intersect of all optics", O)], over=("inputs", "configurations"))

if __name__ == "__main__":
    built = [p for p in P if os.path.exists(os.path.join(V, "props", p["id"] + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            if p not in built and not p["na"]:
                continue
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks = []
    for p in built:
        checks.append(dict(property=p["id"], quick_cmd=f"./run {p['id']} --tier quick",
                           thorough_cmd=f"./run {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
                           technique="solver-based: " + TECH, level="model_checking",
                           level_note=EX + ": " + p["text"] + ("; " + p["note"] if p["note"] else "")))
    man = dict(version=1, setup_cmd="true", checks=checks,
               not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]])
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l)
        jsonschema.validate(d, sch)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(checks), "checks,", len(man["not_applicable"]), "not applicable")
