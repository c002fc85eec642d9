PG = 'src/bgem/polygons/'
PROPS = [
dict(id='P01', title='A decomposition is always exactly the face structure of its segments',
 statement='After any sequence of drawing, deleting, undoing and tolerance changes, the polygons, their outer boundaries and holes, the nesting, '
           'the cyclic order of segments around every vertex and the owner polygon of every isolated point are exactly those of the planar '
           'subdivision formed by the current points and segments. Segments never cross, overlap or pass through vertices. Splitting a segment at its point and joining two collinear segments keep all polygons. The built-in '
           'consistency check accepts every decomposition. No operation sequence crashes or hangs.',
 over=['histories', 'inputs'], q='every history of line/point insertions, segment/point deletions, undo, redo over all coordinates (any scale, rotation, nesting)',
 why='The tests draw a handful of fixed figures and assert counts; the half-edge invariant must hold after every step of every history (splits of dendrites, joins of nested holes, restored ids).',
 files=[PG+'decomp.py', PG+'polygons.py', PG+'polygon.py', PG+'point.py', PG+'segment.py'],
 mech=['half-edge next links and wires updated locally by each atomic operation', 'wire parent/child tree and polygon outer wires maintained incrementally']),
dict(id='P02', title='Segments are exactly the arrangement of what was drawn',
 statement='For drawings whose features are apart by more than the snapping tolerance, the points and segments are exactly the arrangement of the drawn lines '
           'and points minus what was deleted: every crossing and overlap appears once, nothing is lost, invented or moved. Drawing a line returns the chain of segments '
           'covering it, in order from its start to its end; adding a point returns the vertex at that place.',
 over=['histories', 'inputs'], q='every history of lines, points and deletions with separated features',
 why='Tests check numbers of segments for few lines; crossings, collinear overlaps and multiple hits arise in unboundedly many configurations.',
 files=[PG+'polygons.py', PG+'decomp.py', PG+'segment.py'],
 mech=['candidate boxes + pairwise intersection + splitting', 'recursive snapping of a line to existing vertices']),
dict(id='P03', title='Snapping: nearest vertex, else nearest segment, else a free point; idempotent',
 statement='A new point within the tolerance of an existing vertex is that vertex; otherwise within the tolerance of a segment it becomes the nearest point of that segment, which is split there; '
           'otherwise it is a new isolated point exactly at its coordinates in the polygon containing it. A new line passes through exactly those vertices lying within the tolerance of it '
           'and is otherwise straight. Repeating an insertion returns the same objects and changes nothing; existing vertices never move; the tolerance last set is the one used.',
 over=['inputs', 'histories', 'configurations'], q='every existing drawing, probe location/line relative to its vertices and segments, and tolerance',
 why='Tests probe a few coordinates around one figure; acute corners, segment ends, free points on a line and changed tolerances are not reached.',
 files=[PG+'polygons.py', PG+'aabb_lookup.py'],
 mech=['lookup of closest boxes, then distance to points, then to segments', 'splitting position clamped to the ends of a segment']),
dict(id='P04', title='Result is independent of order, direction and repetition of drawn lines',
 statement='Drawing the same set of lines and points in any order, with any direction, repeatedly or cut into collinear pieces at existing vertices gives the same planar map: the same vertices, edges, polygons with holes and '
           'isolated points (up to numbering).',
 over=['schedules', 'inputs'], q='all permutations, orientations, repetitions and cuts of a set of lines with separated features',
 why='Tests use one order per figure; the structure is built incrementally through different operations (join, split, nest) in each order.',
 files=[PG+'decomp.py', PG+'polygons.py'],
 mech=['each segment insertion dispatches on wire identity: new wire, dendrite, join, split, embed']),
dict(id='P05', title='The reported polygon change is the change that happened',
 statement='After adding a segment between existing points or removing a segment, the reported change says exactly what happened to the polygons: nothing, shape of one polygon changed, a polygon split or a new inner polygon added '
           '(with the surviving and the new one), two polygons joined or an inner one removed (with the surviving and the deleted one). All other polygons keep their identity and boundary. A displacement check reports the polygons around the moved points.',
 over=['histories', 'inputs'], q='every single segment insertion/removal in every drawing',
 why='Tests look at the change for a few figures; callers keep their own polygon data in step only through these reports, for every history.',
 files=[PG+'decomp.py', PG+'polygons.py'],
 mech=['last change recorded by each atomic operation', 'reuse of ids of removed objects']),
dict(id='P06', title='Attributes survive edits and are inherited by parts',
 statement='An attribute stays with its point, segment or polygon until the object disappears. Both parts of a divided segment carry its attribute, every part of a divided polygon carries the attribute of the original, '
           'and when polygons are joined the surviving polygon keeps its own attribute; newly drawn objects have none.',
 over=['histories'], q='every history of attribute assignments, drawing and deletion',
 why='Tests set attributes on a single object; inheritance through chains of splits, nesting and joins is not exercised.',
 files=[PG+'decomp.py', PG+'polygons.py', PG+'idmap.py'],
 mech=['copy of attributes in segment split and polygon split']),
dict(id='P07', title='Undo and redo restore every recorded state exactly',
 statement='Undoing an editing action restores exactly the previous state of the decomposition: identifiers, coordinates, end points, polygon boundaries, isolated points, attributes and full structure; redoing it restores exactly the state after it. '
           'This holds along any walk of undo, redo and new actions, grouped or not, down to the empty drawing and back; with recording switched off nothing is recorded.',
 over=['histories'], q='every history of editing actions and every undo/redo walk over it',
 why='Tests undo one elementary operation at a time and compare counts; inverse operations must match in every topological situation and for reused identifiers.',
 files=[PG+'polygons.py', 'src/bgem/undo.py', PG+'decomp.py'],
 mech=['each elementary operation is a generator whose tail performs the inverse operation', 'free-id list reuses identifiers in LIFO order']),
dict(id='P08', title='Every location belongs to exactly one polygon; queries agree with geometry',
 statement='Every location off the segments is contained in exactly one polygon, the one geometry gives, including holes, islands and dendrites. Boundary vertices are listed counter-clockwise along the outer boundary; nested polygons, '
           'depth, the polygons on the left and right of a segment, its predecessors, what each boundary wire encloses and has on its other side, and the polygon seen from a vertex in a direction agree with the exact subdivision.',
 over=['inputs', 'histories'], q='every drawing and every probe location/direction',
 why='Tests probe a few points of simple figures; ray casting has special cases at vertex heights, in nested holes and for dendrites.',
 files=[PG+'polygon.py', PG+'segment.py', PG+'point.py', PG+'polygons.py'],
 mech=['parity of crossings of a horizontal ray', 'wire parent tree']),
dict(id='P09', title='Approved displacements are safe, free ones are approved',
 statement='If a displacement of vertices is approved, no moving vertex or segment touches or crosses anything else on the way, and after moving the decomposition is the exact structure of the moved drawing with all polygons preserved, '
           'snapping and drawing working at the new positions. A displacement which keeps everything apart on the whole way is approved; the check itself changes nothing.',
 over=['inputs', 'histories'], q='every drawing, every set of moved vertices and every displacement vector in general position',
 why='Tests try a few displacements of single vertices; sweeping over isolated points, holes and several moved vertices is never tried.',
 files=[PG+'polygons.py', PG+'point.py', PG+'segment.py'],
 mech=['envelope of fixed segments around moving ones', 'lookup boxes updated after the move']),
dict(id='P10', title='Merging gives the common refinement with correct origin maps',
 statement='Merging decompositions gives a decomposition whose points and segments are exactly the overlay of all inputs, leaving the inputs unchanged. For each input, every new point, segment and polygon is mapped to the original object it is part of, '
           'and to nothing exactly when there is none; every original polygon has an image.',
 over=['inputs'], q='all lists of decompositions (with common vertices, overlapping edges, nesting, islands) and all their orders',
 why='Tests merge a few figures and compare sizes of maps; the maps must be right for each object in each overlay.',
 files=[PG+'merge.py', PG+'polygons.py'],
 mech=['incremental insertion of segments with maps updated by reported changes', 'flood fill of polygon maps']),
dict(id='P11', title='A decomposition rebuilt from its lists is the same decomposition',
 statement='A decomposition written as lists of points, segments and polygons (outer boundary, holes, isolated points), with lists starting anywhere and in any order, is rebuilt as the same subdivision, and further editing of it behaves as on the original.',
 over=['inputs'], q='every decomposition and every equivalent listing of its objects',
 why='No test rebuilds a decomposition with nesting or dendrites; dangling segments make a wire visit a segment twice.',
 files=[PG+'polygons.py', PG+'decomp.py'],
 mech=['wires closed by following segment end points', 'parents assigned by breadth first search from holes']),
dict(id='P12', title='Box lookup agrees with brute force over the stored boxes',
 statement='The spatial lookup returns for a box exactly the stored objects whose boxes intersect it (touching included), and for a location a set of stored objects including every one which may be the closest. '
           'This holds after any history of insertions, replacements and removals, for any identifiers; removed objects are never returned.',
 over=['histories', 'inputs'], q='every history of add/replace/remove and every query',
 why='Tests use one fixed set of boxes without removal; losing a candidate silently corrupts drawings.',
 files=[PG+'aabb_lookup.py'], mech=['table indexed by id, infinite boxes mark removed objects, doubling growth']),
dict(id='P13', title='Undo history behaves as a list of actions with a cursor',
 statement='Undo, redo, counts, descriptions, callbacks and the changed-since-save flag behave as a list of actions with a cursor, for any mixture of single actions, nested groups, undo, redo, clearing, and switched-off recording. '
           'A group is one action; an exception inside an action or a group does not stop later recording; a new action discards what was undone. A failing undo or redo is reported and empties the history.',
 over=['histories', 'fault_sequences'], q='every program of actions, groups, failures, undo/redo and savepoints',
 why='Only single actions are undone in tests; nesting, exceptions, abandoned redo branches and switched-off recording are not reached.',
 files=['src/bgem/undo.py'], mech=['receiver switching between stack and group', 'count based savepoint']),
dict(id='P14', title='Plots of a decomposition show exactly its polygons, segments and points',
 statement='The plot of any decomposition shows every bounded polygon once, with its boundary, and not before the polygons around it (which would cover it), every segment once between its end points, and every point (or exactly the given points) once; '
           'the segment plot shows every segment and all given point lists in the view and is written to its file, also for an empty decomposition. Plotting changes nothing and can be repeated.',
 over=['inputs', 'histories'], q='every decomposition (nesting, dendrites, isolated points, empty) and point lists',
 why='Tests never look at a plot; the drawing order depends on identifiers and nesting of the particular history.',
 files=[PG+'plot_polygons.py'], mech=['recursion to the surrounding polygon, flag of polygons already displayed']),
dict(id='P15', title='Crowded drawings: features merged within the tolerance, nothing drawn is lost',
 statement='When lines cross, meet or run next to each other closer than the snapping tolerance, the decomposition may merge or move features by a few tolerances, but never loses any of the drawing: '
           'after every added point or line, all locations of the new line and of all segments existing before lie within a few tolerances of segments, every point existing before has a point nearby, and the planar structure stays valid.',
 over=['inputs', 'histories'], q='every drawing with features closer than the tolerance (nearly concurrent lines, small angles, clusters of ends, short segments)',
 why='Tests merge points of one or two tiny drawings; merging several intersections of one line with segments shared by the merged points needs crowded random drawings.',
 files=[PG+'polygons.py', PG+'decomp.py'], mech=['add_line: intersections closer than the tolerance, merge_points, _add_line_new_segments', 'check_displacment']),
]
