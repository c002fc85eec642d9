BS = 'src/bgem/bspline/'
PROPS = [
dict(id='B01', title='Basis functions are the exact B-splines of the knot vector',
 statement='For every degree and clamped knot vector (any range, spacing, multiplicities; raw, packed or equidistant) the basis functions and their first derivatives equal the Cox-de Boor B-splines everywhere in the domain, '
           'including knots and both ends; they sum to one, vanish outside of their support, the interval found for a parameter contains it, packing of knots is reversible, and the poles of the identity reproduce the parameter.',
 over=['inputs'], q='every degree, clamped knot vector and parameter of the domain',
 why='Tests sample a few parameters of unit-range quadratic bases; knots, ends, multiple knots and other ranges and degrees form an unbounded set.',
 files=[BS+'bspline.py'], mech=['recursive evaluation with closed-form quadratic case', 'binary search of the knot interval with snapping at the ends']),
dict(id='B02', title='Curves and surfaces equal the spline of their poles; copies are independent',
 statement='Curve and surface evaluation (single parameter, arrays, rational or not, any degree and dimension, poles as lists or arrays) equals the (weighted) combination of poles by basis functions; the reported box contains the object and is the '
           'box of its poles; copies and objects made from the same data do not influence each other and evaluation changes nothing.',
 over=['inputs', 'histories'], q='every basis, poles, weights and parameter; every copy followed by changes',
 why='Tests check few polynomial shapes visually; rational weights, list input and aliasing of copies are not asserted.',
 files=[BS+'bspline.py'], mech=['weighted poles prepared at construction', 'local block of poles by knot interval']),
dict(id='B03', title='Boxes of patches and curve intervals contain them; box queries miss nothing',
 statement='The box reported for an interval of a curve or a patch of a surface contains every point of that interval/patch and lies within the box of the whole; a query of the box tree with a point of the surface returns every patch the point '
           'lies on; numbering of patches is a bijection.',
 over=['inputs', 'configurations'], q='every 3D curve/surface of any degree, rational or not, and every point of every patch',
 why='A missing patch silently loses intersections for some geometry; tests use degree two and check a few ids.',
 files=[BS+'bspline.py'], mech=['hull of the poles of a patch', 'bounding interval hierarchy over patches']),
dict(id='B04', title='Z surfaces follow their last XY and Z transforms in every evaluation',
 statement='After any history of setting XY and Z transforms, baking the Z transform into poles and copying, a Z surface over a parallelogram, triangle or bilinear quad evaluates (z of UV, z of XY, full point, arrays, full B-spline surface, box) to '
           'the function determined by its poles and the last transforms; UV and XY maps are mutually inverse for linear quads; copies and their origins do not influence each other.',
 over=['histories', 'inputs'], q='every history of transforms/copies/baking of every Z surface and every parameter',
 why='Tests apply one transform to one quad; shared poles and matrices between copies only fail for particular histories.',
 files=[BS+'bspline.py'], mech=['lazy affine maps composed on evaluation', 'shallow copies sharing poles']),
dict(id='B05', title='Grid surfaces interpolate their grid exactly and irregular grids are refused',
 statement='A point grid that is regular up to the tolerance is recognized for any orientation, size, offset and order and the grid surface equals its bilinear interpolant at nodes, on and inside cells, before and after any transforms; '
           'a grid with a moved, missing, repeated or surplus point is refused.',
 over=['inputs', 'histories', 'fault sites'], q='every affine grid, cell location, history of transforms, and every kind of damage of the grid',
 why='Tests use one grid; orientation, offsets large against the step and damaged input are not covered.',
 files=[BS+'bspline.py'], mech=['detection of the grid by differences of the point sequence', 'UV indexing of cells with clamping at the border']),
dict(id='B06', title='Surface approximation solves the regularized least squares problem it states',
 statement='For any point cloud (weighted or not, partly outside of the quad, from array, file or grid surface), quad, mesh and regularization the approximating poles satisfy the normal equations of the weighted least squares fit with the gradient '
           'regularization, the reported error is the maximal residual over used points, quadratic functions are reproduced, the default quad contains all points and only points out of the quad are dropped.',
 over=['inputs', 'configurations'], q='every point cloud, weights, quad, numbers of intervals and regularization weight',
 why='Tests compare the error with a loose bound for one function; wrong weights, dropped points or a distorted regularization still look like a surface.',
 files=[BS+'bspline_approx.py', BS+'bspline.py'], mech=['sparse assembly of the least squares and regularization matrices', 'rotating rectangle for the default quad']),
dict(id='B07', title='Planes, bilinear surfaces, lines are exact; fitted curves follow their points',
 statement='A plane, bilinear surface or line given by vertices of any type and dimension equals the exact (bi)linear map, and with overhang it extends beyond the vertices so that the original is the inner part; a curve fitted to a point sequence starts and ends in its '
           'end points and passes every point within the tolerance asked for.',
 over=['inputs'], q='every vertices, overhang and point sequence',
 why='Tests plot the results or check a single set of vertices.',
 files=[BS+'bspline_approx.py'], mech=['quadratic poles by averaging', 'scipy splprep with pinned ends']),
dict(id='B08', title='Convex hull is exact and the bounding rectangle is the smallest one',
 statement='For any planar point set, including repeated, collinear and almost collinear points, the hull is a closed cyclic polygon of input points containing all of them and having all extreme points; the rectangle contains all points and has the '
           'least area over all directions.',
 over=['inputs'], q='every planar point set',
 why='Tests use random normal points; degenerate sets decide about termination and completeness of the recursion.',
 files=[BS+'bspline_approx.py'], mech=['quickhull recursion by the farthest point', 'rotating hull edges']),
dict(id='B09', title='Intersections lie on both objects and each transversal crossing is found once',
 statement='Every reported intersection of a curve with a surface or of main curves of a surface with another surface lies on both at the reported parameters, which are in the domain and belong to the reported intervals and patches (all neighbours when on their '
           'interface); every transversal crossing of planar or almost planar surfaces is reported exactly once; parallel objects give no intersections. Connecting the points into curves terminates with a result.',
 over=['inputs'], q='every pair of quadratic curve and surface, or two surfaces',
 why='Tests count intersections of one pair of surfaces; missed or spurious points depend on patches hit and starting points of the iterations.',
 files=[BS+'isec_curve_surf.py', BS+'isec_surf_surf.py', BS+'surface_point.py', BS+'curve_point.py', BS+'isec_point.py'],
 mech=['box tree candidates, Newton iteration clamped to the patch', 'flags of interface points']),
dict(id='B10', title='A written BREP model reads back as exactly the model that was built',
 statement='The BREP text of any model (shapes shared between parents, orientations, locations incl. composed ones, flags, explicit or implicit curves and surfaces) read by an independent reader gives the same graph of shapes with each shape, curve, surface and location once and '
           'all numbers exact; curves of edges end in their vertices also through the surface; OpenCASCADE reads the same counts, volumes and places. Writing is repeatable, also after writing other models with common shapes. Inconsistent models are refused.',
 over=['inputs', 'histories'], q='every model built by the public constructors and every sequence of writing models sharing shapes',
 why='The test writes one prism and never reads it; numbering must be right for every sharing pattern and every repeated writing.',
 files=[BS+'brep_writer.py'], mech=['depth first numbering of shapes and geometry, reversed shape ids', 'implicit surfaces and curves made while numbering']),
dict(id='B11', title='Plots show the evaluated objects; show displays what was added since the last',
 statement='Whatever the backend, a plotted curve, surface or Z surface is shown by its exact values at equidistant parameters over its whole domain, poles by their positions without weights, raw data unchanged; each show displays exactly '
           'the plots added since the previous show, each once, in a figure of its own.',
 over=['inputs', 'histories'], q='every object (degree, domain, rational), numbers of points, and history of plots and shows for each backend',
 why='Tests only check that plotting does not crash; a plot with wrong data or of other objects misleads silently.',
 files=[BS+'bspline_plot.py'], mech=['evaluation on an equidistant (mesh)grid, reshaped to the grid', 'lists of traces emptied by show; figures of matplotlib reused']),
]
