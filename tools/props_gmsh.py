GM = 'src/bgem/gmsh/'
PROPS = [
dict(id='G01', title='A mesh written to an MSH file reads back as exactly the same mesh',
 statement='Nodes (ids, coordinates bit by bit), elements (ids, types, tags, node order) and physical names written by GmshIO as text or binary are read back unchanged by GmshIO, by an independent reader and by GMSH; files written by other tools '
           '(MSH 1.0, 2.x text and binary, GMSH itself, with other layout of sections, blank lines, short tag lists, names with spaces) are read in full.',
 over=['inputs', 'configurations'], q='every mesh of the supported element types, with any ids, coordinates, tag counts and names, and every valid layout of the file',
 why='Tests read one file; ids, element types, tag counts, name syntax and the binary format vary without bound and a wrong slice still gives a plausible mesh.',
 files=[GM+'gmsh_io.py'], mech=['hand written parser of MSH text and binary sections', 'struct packing of nodes and elements']),
dict(id='G02', title='Element fields in MSH files keep each value on its element',
 statement='Scalar, vector and tensor element fields written by GmshIO (separately or with the mesh) are read back by GmshIO, by an independent reader and by GMSH with the same value, component, time and element id; '
           'files with several times and fields are read in full; damaged data sections are refused, never read as other values.',
 over=['inputs', 'configurations', 'fault sites'], q='every set of fields, component counts, times, ids and every damage of a data section',
 why='Tests read one field from one file; a shift of values against ids or of components is invisible without an independent reader.',
 files=[GM+'gmsh_io.py'], mech=['ElementData sections with string, real and integer tags']),
dict(id='G03', title='Quality measures of elements are geometric and correctly classified',
 statement='Quality and flatness measures of triangles and tetrahedra equal their geometric definitions (inradius/circumradius ratios, altitudes, inverse gradient) computed exactly, do not depend on node order, place, rotation or (where scale free) scale, are 1 for '
           'regular elements, tend to zero for degenerate ones, are never NaN; elements reported as bad are exactly those below the tolerance and statistics count every element once.',
 over=['inputs'], q='every triangle and tetrahedron incl. degenerate ones, every mesh and tolerance',
 why='Tests print statistics of one mesh; a wrong formula still orders most of the elements plausibly.',
 files=[GM+'heal_mesh.py'], mech=['closed formulas on edge vectors', 'histogram and list of bad elements']),
dict(id='G04', title='Healing removes bad elements and keeps the mesh conforming with its regions',
 statement='Healing of a conforming mesh ends, leaves no element below the quality tolerance, no close nodes, duplicate or degenerate elements, keeps every remaining element unchanged (nodes up to order, type, tags), gives new elements new ids and the tags of their source, keeps the mesh '
           'conforming (each free or interface face keeps its boundary element), the volume and regions; a good mesh is not changed and healing again changes nothing. The written file is the healed mesh.',
 over=['inputs', 'histories'], q='every conforming simplex mesh with isolated bad elements of any kind, any ids, scale and order of elements',
 why='Tests heal few files and check the count of bad elements; conformity after each combination of splits and merges is not looked at.',
 files=[GM+'heal_mesh.py', GM+'gmsh_io.py'], mech=['edge splits and node merges around a bad element', 'node to element map maintained through changes']),
dict(id='G05', title='Booleans of geometry objects keep exact point sets and regions of every piece',
 statement='Cut, intersection, fragmentation, split_by_cut, select_by_intersect, copy, grouping, splitting, removal of duplicates and boundaries of object sets give exactly the set-theoretic results: every piece lies within one side of every argument, the pieces cover the result without overlap, '
           'each piece has the region of the entity it comes from, tools are preserved, boundaries are exactly the faces of the pieces and are assigned to the right region; regions can be set by name, format or entity; a failed operation raises its exception.',
 over=['inputs', 'histories'], q='every arrangement of touching, overlapping, nested shapes of mixed dimensions with regions and every sequence of operations',
 why='Tests build few geometries and mostly look that a mesh is produced; a piece with the region of its neighbour or a lost piece still meshes.',
 files=[GM+'gmsh.py'], mech=['maps of OCC boolean operations zipped with regions', 'sync of OCC and GMSH models']),
dict(id='G06', title='Shapes made and transformed by the geometry wrapper have the exact geometry',
 statement='Constructors (rectangle, box, cylinder, polygon, simplex, make_rectangle, fractures) with numbers in any container give shapes with the defined points, measure and centre, after any sequence of translations, rotations and scalings the exact affine image; '
           'copies are independent, arguments are not modified, groups keep all members with their regions; crossing boundaries of polygons are refused.',
 over=['inputs', 'histories'], q='every shape, number container and sequence of transforms, copies and grouping',
 why='Tests make few shapes and check nothing or the dimension; a wrong axis or order of transforms gives a different valid geometry.',
 files=[GM+'gmsh.py'], mech=['constructors calling OCC', 'affine transforms of object sets', 'fractures placed from a base shape']),
dict(id='G07', title='The mesh of a geometry fills exactly its regions and is conforming',
 statement='make_mesh and write_mesh give a mesh where physical groups are one to one with regions of the given objects (unique names), elements of each group lie in and fill exactly the entities of its region, appear once, belong to no other group, '
           'and all dimensions are conforming (each face shared by as many elements as it must be); prescribed mesh steps hold on curves; with elimination only given objects are meshed; every format is written and reads again; after reinit the next model is independent; only one instance may exist.',
 over=['inputs', 'configurations', 'histories'], q='every arrangement of fragmented objects, assignment of regions, selection of objects, dimension and format',
 why='Tests run meshing and do not look at the result; a group with a lost or repeated entity or a step set elsewhere still gives a valid file.',
 files=[GM+'gmsh.py'], mech=['physical groups from regions', 'elimination of other entities', 'mesh steps at points', 'file formats']),
dict(id='G08', title='Mesh size fields have the described value everywhere',
 statement='Box, constant, distance (points, curves), threshold (linear, sigmoid), min, max and restrict fields in any composition have at each point and entity exactly the value their description gives, the background field is the one that was set and a mesh of a constant field has that step.',
 over=['inputs'], q='every expression of fields, every point and entity of a geometry',
 why='No test evaluates a field; a wrong bound or a field without effect only gives a mesh with other density.',
 files=[GM+'field.py'], mech=['GMSH field options set by name']),
dict(id='G09', title='Option objects set exactly the named GMSH options',
 statement='Creating Mesh and Geometry options sets the described defaults, each assignment changes exactly the named GMSH option to the given number, flag, text or enum code; unknown names and values of other types are refused and change nothing.',
 over=['inputs', 'histories'], q='every sequence of assignments to several option objects',
 why='Tests set few options and never read them back from GMSH.',
 files=[GM+'options.py'], mech=['__setattr__ translated to GMSH options', 'codes of enums']),
]
