TECH = "property-based testing: generated inputs and histories against an independent reference model, with shrinking"
NOTE = "Holds on every generated case (counts in the evidence file); trusts numpy/scipy/VTK primitives used by the oracle and stays within the generator bounds stated in DESIGN.md."

prop(
    "C01",
    "Subdivisions are where resolution and method say, in every builder",
    "Every builder that takes a resolution (surfaces, volumes, rectangles, quadrilaterals, annuli, cylindrical shells, sector/rectangle transitions, sectors, circles, stacks and extrusions) puts its nodes exactly at the requested relative positions between its two ends: n equal steps for an integer n (None or anything below one meaning a single step), the log10(1..10) progression for 'log_r' and its mirror image for 'log', and the sorted given fractions for an explicit list. Each resolution/method pair applies to its own direction only (radial, azimuthal, x, y or z). Both ends are hit exactly unless an explicit list leaves them out.",
    ["inputs", "configurations"],
    "all builders x all directions x resolutions (None, <1, integers, explicit sequences in any order and container) x methods x sizes",
    "Tests call each builder with one or two resolutions and compare checksums; a swapped direction, an unsorted list or the mirror of 'log' in a single builder is not sampled.",
    ["pvgridder/core/_helpers.py", "pvgridder/core/geometric_objects.py", "pvgridder/core/stack.py", "pvgridder/core/extrude.py"],
    [("resolution_to_perc", "pvgridder/core/_helpers.py"), ("generate_arc / generate_line_from_two_points / generate_surface_from_two_lines / generate_volume_from_two_surfaces", "pvgridder/core/_helpers.py")],
    TECH, NOTE,
    "facets surface, volume, rectangle, ring, corner, sector, layers: each builds its primitive with generated resolutions/methods/sizes/centres and compares every node (and, for unstructured results, every cell) with closed-form positions computed by the oracle. Bounds: up to 5 subdivisions per direction, coordinates up to a few thousand, tolerance 1e-6 where pyvista sources are single precision.",
)
prop(
    "C02",
    "A surface joins its two lines point by point, in the requested plane",
    "A structured surface built from two lines with the same number of points has its nodes at exact linear interpolations of matching points of both lines, indexed so that the first letter of the plane runs along the lines and the second one across them, for arrays, polylines, chains of segments and polygons alike. Cells are flagged hidden exactly where both edges of the lines coincide (no area). Lines with different numbers of points and unknown planes are rejected.",
    ["inputs", "configurations"],
    "all pairs of lines x input forms x six planes x subdivisions",
    "Tests use a handful of straight lines and one or two planes; transposed planes and partially collapsed surfaces are barely sampled.",
    ["pvgridder/core/_helpers.py", "pvgridder/core/geometric_objects.py"],
    [("generate_surface_from_two_lines", "pvgridder/core/_helpers.py")],
    TECH, NOTE,
    "facets nodes, collapsed, reject: reference interpolation indexed [along, across] per plane; hidden flags against exact coincidence of generated dyadic heights.",
)
prop(
    "C03",
    "A volume is the prism between its surfaces, with outward faces",
    "The volume between two matching surfaces has one prism per surface cell and subdivision: hexahedra over quads and pixels, wedges over triangles, closed polyhedra with consistently outward-oriented faces over polygons (whatever their orientation, aligned points or concave corners, upward or downward), and a structured grid over structured, image or rectilinear surfaces. Nodes are exact linear interpolations of matching points, consecutive layers share them, and a cell is flagged hidden exactly when its two faces coincide (or, in a structured grid, both have no area). Surfaces with different numbers of points, dimensions, cell types or unsupported cells are rejected.",
    ["inputs", "configurations"],
    "all pairs of matching surfaces (cell types, orderings, orientations, planes, thicknesses of either sign and zero) x subdivisions",
    "Tests compare checksums of a few meshes; orientation of polyhedra, hidden flags of partially collapsed layers and mixed cell types depend on geometry they do not vary.",
    ["pvgridder/core/_helpers.py"],
    [("generate_volume_from_two_surfaces", "pvgridder/core/_helpers.py")],
    TECH, NOTE,
    "facets unstructured, structured, built, reject: generated jittered surfaces mixing quads/triangles/pixels/polygons in random order and orientation; vertices, faces, closure, signed volume, hidden flags and total volume against the model. Oblique prisms only between parallel surfaces.",
)
prop(
    "C04",
    "Attributes follow their cells and points through extrusion",
    "When lines, surfaces and base meshes are extruded, every point and cell of the result carries the values of the point and cell of the starting line or surface it comes from, for scalar and multi-component arrays, in every plane and along every axis; the arrays of the ending one are ignored. Stacks and extrusions keep the cell arrays of their base mesh on every column and layer.",
    ["inputs", "configurations"],
    "all data layouts (point/cell, components, dtype) x planes/axes x base kinds x layer counts",
    "Tests check array presence on single-component data in the XY plane.",
    ["pvgridder/core/_helpers.py", "pvgridder/core/_base.py", "pvgridder/core/extrude.py", "pvgridder/utils/_misc.py"],
    [("repeat_structured_data and the tile/repeat of line and surface data", "pvgridder/core/_helpers.py"), ("merge", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets surface, volume, built: distinguishable values are attached, every output point/cell is traced back to its origin by geometry (not by index arithmetic) and compared, including hidden-cell flags of the base.",
)
prop(
    "C05",
    "Primitives tile exactly their region around their centre",
    "Every primitive (rectangle, square, quadrilateral, annular sector, annulus, sector, circle, cylindrical shell and its sector, sector-to-rectangle and rectangle-to-sector transitions) covers its region without gap or overlap: the measures of its cells add up to that of the (polygonal) region, no node is duplicated inside transitions, and its documented defaults apply to omitted arguments. The centre, given as two or three coordinates or not at all, only translates the shape (shells being centred vertically). Non-positive or inconsistent radii and malformed centres are rejected.",
    ["inputs", "configurations"],
    "all sizes, angles, resolutions, centres and subsets of omitted arguments",
    "Tests compare checksums of one or two instances per primitive.",
    ["pvgridder/core/geometric_objects.py", "pvgridder/core/_helpers.py"],
    [("AnnularSector, Sector, Quadrilateral, SectorRectangle, RectangleSector, CylindricalShellSector", "pvgridder/core/geometric_objects.py"), ("translate", "pvgridder/core/_helpers.py")],
    TECH, NOTE,
    "facets shape, reject: areas/volumes by the shoelace and divergence formulas against closed forms of the inscribed polygons, orientation, bounds, radii and duplicate nodes; generated invalid sizes. The seam of a full circle or annulus is not required to be merged.",
)
prop(
    "C06",
    "Curved and regular lines have the requested length, turn and spacing",
    "A curved line starts at its origin and has the requested number of segments, all of the same length and adding up to the requested length, whose directions turn uniformly in the plane of the starting and ending directions (segment k of n pointing at (k-1/2)/n of the total angle), whatever the norm of the directions. A regular line keeps both ends of its polyline and puts its nodes at equal spacing of arc length along it, one more than the resolution, which defaults to the number of given points.",
    ["inputs"],
    "all origins, lengths, directions (not opposite), polylines and resolutions",
    "Tests compare checksums of two or three lines.",
    ["pvgridder/core/geometric_objects.py"],
    [("CurvedLine, RegularLine", "pvgridder/core/geometric_objects.py")],
    TECH, NOTE,
    "facets curved, regular: closed-form directions and an independent arc-length walk. Exactly opposite directions (plane undefined) are excluded.",
)
prop(
    "C07",
    "A meshed polygon covers its shell minus its holes, conformingly",
    "Meshing a polygon with triangles or quads covers exactly the area of the shell minus the holes with a conforming mesh in the plane of the polygon, every vertex of the shell and holes being a node; without a cell size the boundary edges are those of the rings, and with one no boundary edge is longer than it (up to the mesher's 1 % rounding). The result does not depend on the form of the input (array, closed or open ring, polyline, face, mesh), orientation or starting vertex, and 'polygon' gives the ring as one cell. Unknown cell types or engines and a single polygon with holes are rejected, leaving the mesher usable.",
    ["inputs", "configurations", "histories"],
    "all simple polygons with up to two holes x input forms x planes x cell types x sizes x algorithms x engines",
    "Tests mesh a few fixed polygons and compare counts.",
    ["pvgridder/core/geometric_objects.py"],
    [("Polygon", "pvgridder/core/geometric_objects.py")],
    TECH, NOTE + " gmsh itself is trusted to be deterministic.",
    "facets mesh, reject: star-shaped shells with star-shaped holes; area, boundary length, ring vertices, edge multiplicity and boundary edge lengths. Folded quads produced by gmsh's recombination of coarse meshes are accepted (signed area).",
)
prop(
    "C08",
    "Extruded sections are translated, scaled and rotated as requested",
    "Each step of an extrusion takes the previous section, translates it by the vector, scales it about the centre of its bounding box and rotates it by the right-hand rule about the vector through that centre; a scale or angle given to the step wins over the default of the extrusion, and neither means identity. The generated nodes are the linear interpolations between consecutive sections, and each cell joins the two copies of one base cell within one layer. Vectors that are not 3D, bases that are not 2D and extrusions without step are rejected.",
    ["inputs", "histories", "configurations"],
    "all bases x sequences of steps x scales/angles given, defaulted or absent x directions",
    "Tests extrude two meshes with one or two steps and compare checksums.",
    ["pvgridder/core/extrude.py", "pvgridder/core/_helpers.py"],
    [("MeshExtrude.add / generate_mesh", "pvgridder/core/extrude.py")],
    TECH, NOTE,
    "facets sections, reject: an independent Rodrigues-rotation model of the sections, nodes compared by structured index or by geometry, cells by vertex sets. Angles within +-80 degrees per step so that cells do not fold.",
)
prop(
    "C09",
    "Interfaces of a stack never cross, priority deciding which one yields",
    "In a generated stack each interface lies at or beyond the previous one along the stacking direction, by at least the minimum thickness of its item, for every order of elevations, priorities, axes and directions: where two interfaces conflict the one with lower priority is moved just as far as needed (the earlier one on ties), through all the items in between, and the others stay where they were given. Cells left without thickness are flagged hidden and no other, the number of cells does not depend on the elevations, and the items can be generated again. Stacks of less than two items, bases of the wrong dimension, axes in the plane of a structured base and malformed arrays are rejected.",
    ["inputs", "configurations", "histories"],
    "all bases x axes x directions x sequences of elevations, priorities and minimum thicknesses",
    "Tests stack a few parallel surfaces bottom-up; cascades of cuts, ties, downward stacks and minimum thicknesses are not sampled.",
    ["pvgridder/core/_base.py", "pvgridder/core/stack.py", "pvgridder/core/_helpers.py"],
    [("MeshStackBase._cut_items", "pvgridder/core/_base.py"), ("MeshStackBase.generate_mesh", "pvgridder/core/_base.py")],
    TECH, NOTE,
    "facets cut, reject: an independent per-node cutting model over generated dyadic elevations; all nodes, cells and hidden flags of the generated mesh are compared with it.",
)
prop(
    "C10",
    "Column, layer and item identifiers locate every generated cell",
    "Every cell of a stacked or extruded mesh carries the index of the base cell it stands on (ColumnId), its layer counted from the first item upwards through all the subdivisions (LayerId) and the index of the item that created it (StackItem or ExtrudeItem, starting at 0), whatever the axis, the direction and the kind of base mesh. Identifiers already present on the base mesh are replaced.",
    ["inputs", "configurations", "histories"],
    "all bases (lines, structured, unstructured) x axes x directions x sequences of items and subdivisions",
    "Tests compare checksums of identifiers along the Z axis only.",
    ["pvgridder/core/_base.py", "pvgridder/core/extrude.py", "pvgridder/core/_helpers.py"],
    [("get_column_layer_ids", "pvgridder/core/_helpers.py"), ("MeshStackBase._generate_mesh", "pvgridder/core/_base.py")],
    TECH, NOTE,
    "facet ids: each output cell is matched by its centre with the expected (column, layer) cell of the model and its identifiers compared; the match is required to be one-to-one and, for unstructured meshes, layers must share their interface nodes.",
)
prop(
    "C33",
    "Transitions connect base lines of different resolutions conformingly",
    "A transition in a 2D stack replaces the base line by a new one (a line or a number of equal segments over the current extent) and fills the next item with triangles that use exactly the nodes of both interfaces, so that the mesh stays connected and conforming and covers exactly the area between its interfaces. Items before and after it keep their own columns and subdivisions. Cells of a transition form a single layer and have column -1.",
    ["inputs", "configurations", "histories"],
    "all base lines x sequences of items with one or several transitions x axes x directions",
    "Tests contain one example with a transition.",
    ["pvgridder/core/stack.py", "pvgridder/core/_base.py"],
    [("MeshStack2D.set_transition / _transition", "pvgridder/core/stack.py")],
    TECH, NOTE,
    "facet transition: per-item areas, counts, groups, identifiers, edge multiplicities and outline length against closed forms. Lines share their end positions; interfaces do not cross; a scalar item right after a transition is not generated.",
)
prop(
    "C11",
    "Stack items take their elevations from their source, as documented",
    "The elevation of a stack item is an absolute value for the first item given as a number and a translation by its magnitude along the stacking direction for the next ones, the value of a function at the coordinates of the base, and the linear interpolation of scattered points or datasets at the lateral positions of the base (along the single varying lateral coordinate, in any order of the points, when there is only one). Where the source does not enclose the base, no extrapolation is an error and 'nearest' takes the nearest value. An added plane goes through the given point, normal to the axis rotated by minus the given angles, the one about the axis being ignored.",
    ["inputs", "configurations", "histories"],
    "all bases x axes x directions x sources (numbers, functions, arrays, datasets, planes) x extrapolation modes",
    "Tests use flat sources along Z; unsorted lines, other axes, several items and sources that do not enclose the base are not sampled.",
    ["pvgridder/core/_base.py", "pvgridder/core/stack.py"],
    [("MeshStackBase.add / _interpolate", "pvgridder/core/_base.py"), ("MeshStack3D.add_plane", "pvgridder/core/stack.py")],
    TECH, NOTE,
    "facets source, outside, plane: piecewise linear references evaluated by the oracle (barycentric and 1-D), interfaces read back from the generated mesh. Bounds: planar fields over scattered points so that the triangulation does not matter.",
)
prop(
    "C12",
    "Groups are assigned to the cells their selection names, later ones winning",
    "Cells of stacked and extruded meshes belong to the group of their item when it is a name, and otherwise to the group their base cell belongs to (unless ignored or on a base line) or the default group; a mapping of names assigns each group to the base cells selected by group name, several names, '~' negation, function, indices or mask on the base mesh, in every layer of the item, later entries winning, and '~' before the group inverts its selection. An item's own group wins over that of the base. The name table of the result lists exactly the groups in use, with consistent numbers, and real-valued selections are rejected.",
    ["inputs", "configurations", "histories"],
    "all bases with or without named groups x sequences of items x group specifications x default and ignored groups",
    "Tests use one or two group mappings with functions.",
    ["pvgridder/core/_base.py", "pvgridder/core/stack.py", "pvgridder/core/extrude.py"],
    [("MeshBase._initialize_group_array", "pvgridder/core/_base.py")],
    TECH, NOTE,
    "facets groups, reject: the names of all output cells (found by column and layer geometry) against a direct interpreter of group specifications.",
)
prop(
    "C13",
    "Generating a mesh is repeatable and leaves builders and inputs alone",
    "For every builder (2D and 3D stacks, extrusions, merges, Voronoi meshes) a generated mesh depends only on the items added so far, in their order, and on the inputs as they were when handed over: generating several times, adding items in between, altering generated meshes or the inputs afterwards, or using the same inputs in another builder changes nothing. Inputs (meshes and arrays) are never altered. Adding an item returns the builder itself.",
    ["histories"],
    "all interleavings of additions, generations, alterations of outputs and inputs, and other builders on the same inputs",
    "Tests generate each builder once.",
    ["pvgridder/core/_base.py", "pvgridder/core/stack.py", "pvgridder/core/extrude.py", "pvgridder/core/merge.py", "pvgridder/core/voronoi.py"],
    [("items of MeshBase subclasses and generate_mesh", "pvgridder/core/_base.py")],
    TECH, NOTE,
    "facet history: stateful generation of 5-10 operations; each generated mesh is compared bit for bit with that of a fresh builder given the same items only.",
)
prop(
    "C14",
    "Merging pieces of a mesh gives the mesh back",
    "Merging structured grids along an axis gives the structured grid that has the points and cell arrays (of any number of components, those present in all of them) of its pieces in order, in two and three dimensions, and requires the axis and matching interfaces. Merging other datasets, or structured ones with them, gives an unstructured grid with all their cells in order, their types, and their point and cell arrays, matching points being merged unless asked otherwise. The inputs are left unchanged.",
    ["inputs", "configurations"],
    "all ways of cutting meshes into 2-4 pieces x axes x data layouts x point merging",
    "Tests merge two fixed meshes.",
    ["pvgridder/utils/_misc.py"],
    [("merge", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets structured, unstructured: curvilinear grids and mixed surfaces are cut by the generator and merged back; mismatched interfaces by a component of a single node are expected to be rejected.",
)
prop(
    "C15",
    "MeshMerge unifies nodes and groups of the meshes it is given",
    "MeshMerge joins any number of meshes (unstructured, polygonal, structured, image, rectilinear) into one unstructured grid in which points that coincide are merged and all others are kept, with exactly the cells of the inputs. Each cell keeps the name of its own group unless it has none or it is ignored, in which case it takes the group given with its mesh or else the default group, whatever numbers the inputs use for their groups. Cell arrays shared by the inputs follow their cells.",
    ["inputs", "histories"],
    "all splits of a surface into pieces x forms x group numberings and names x default/ignored groups",
    "Tests merge two fixed meshes without groups of their own.",
    ["pvgridder/core/merge.py", "pvgridder/core/_base.py", "pvgridder/utils/_misc.py"],
    [("MeshMerge.generate_mesh", "pvgridder/core/merge.py"), ("MeshBase._clean", "pvgridder/core/_base.py")],
    TECH, NOTE,
    "facets merge, reject: every output cell is traced back to its input by its vertices, then its group name and data compared.",
)
prop(
    "C16",
    "Voronoi meshes partition their domain into nearest-site cells",
    "A Voronoi mesh has one cell per site (cell centres or points of the background mesh, plus added points), which is the part of the domain nearer to it than to any other site, up to the minimum edge length, so that cells fill the domain of the background mesh exactly, holes and notches excluded, without overlap. Cells have the requested orientation, share the nodes and whole edges of their neighbours (no vertex is repeated in a cell, edges of a single cell are on the outline), lie in the plane normal to the axis and carry the coordinates and the group of their site; edges between nodes inside the domain are not shorter than the minimum length (cells smaller than it vanish, and nothing else does), and the background mesh is left unchanged.",
    ["inputs", "configurations"],
    "all background meshes (shapes, cell types, shears) x axes x preferences x extra points x orientation, minimum length, infinity",
    "Tests generate Voronoi meshes of two fixed backgrounds and compare checksums.",
    ["pvgridder/core/voronoi.py", "pvgridder/utils/_misc.py"],
    [("VoronoiMesh2D.generate_mesh / _generate_voronoi_tesselation", "pvgridder/core/voronoi.py")],
    TECH, NOTE,
    "facet partition: every cell against an independent half-plane clipping (shapely only intersects it with the domain). Cases in which a nearest-site region is disconnected by the outline (cells then drop parts) are skipped and labelled. facet short: grids with displacements of 1e-4 to 1e-2 and crosses of sites around cells smaller or larger than the minimum length.",
)
prop(
    "C17",
    "Voronoi items discard the sites they cover according to their priority",
    "Items of a Voronoi mesh are applied in increasing order of absolute priority; each one adds the centres of its cells that lie in the domain as sites, of its group, and discards the existing sites enclosed in its cells that have a lower priority, or the same one unless its priority is negative, while point items discard nothing. The cells of a circle with a constraint larger than its radius fill exactly the regular polygon inscribed in it (a single cell when plain), and those of a straight polyline whose segments are not longer than its width a strip of that width, with one row of sites per point ('cell', padded at both ends) or per segment ('point'), each row holding as many sites as the resolution, across the bisector at bends and whatever the direction of the polyline. Constraint cells belong to the default group.",
    ["inputs", "configurations", "histories"],
    "all sequences of points, patches, circles and polylines x priorities x groups x axes x positions (also out of the domain)",
    "Tests add one circle and one polyline of priority 0.",
    ["pvgridder/core/voronoi.py"],
    [("VoronoiMesh2D.add / add_circle / add_polyline / generate_mesh", "pvgridder/core/voronoi.py")],
    TECH, NOTE,
    "facets items, over, circle, polyline, rows (every site of bent polylines and of their constraint cells, and reversal): a model of surviving sites (shapely point-in-polygon with a margin, ambiguous cases skipped and labelled), then the cells against the half-plane model of C16 and group names.",
)
prop(
    "C18",
    "Edges, faces, neighbours and connections follow shared vertices",
    "The geometry extracted from a 2D or 3D mesh lists every edge (2D) or face (3D) of its cells exactly once, with the vertices of that edge or face on the points of the mesh and the indices of all the cells that share it (at least two columns, padded with -1 at the end); by default hidden cells are left out together with edges or faces without length or area. The neighbours of a cell are the cells it shares an edge or a face with, once per shared edge or face, and none for cells left out. Connections draw one line per such pair between the centres of the cells or between given centres, whose shape must match.",
    ["inputs", "configurations"],
    "all meshes (structured, image, rectilinear, polygonal, unstructured mixing every supported 2D or 3D cell type with empty cells) x hidden cells x collapsed cells x ghost removal",
    "Tests count neighbours of three fixed meshes; numbering of mixed cell types, hidden cells, and faces of a single cell are not sampled.",
    ["pvgridder/utils/_misc.py", "pvgridder/utils/_connectivity.py"],
    [("extract_cell_geometry", "pvgridder/utils/_misc.py"), ("get_neighborhood / get_connectivity", "pvgridder/utils/_connectivity.py")],
    TECH, NOTE,
    "facets geometry, neighbors, connections: edges and faces come from the generator's own cell tables and are matched by vertex sets, vertex order and owners. Meshes of which all cells are hidden and 1-D meshes are not generated.",
)
prop(
    "C19",
    "Extracted cells keep their order, geometry, data and flags",
    "Extracting cells by indices, mask or the inverse of either gives exactly the selected cells in the order of the mesh, with their vertices, their cell and point data, their hidden flags and their original indices, for every kind of mesh, hidden cells included and an empty selection giving an empty grid. Extracting by dimension keeps the cells of at least ('upper') or at most ('lower') the given dimension, by default that of the mesh, empty cells being kept only if asked and an unknown method rejected. The mesh itself is left unchanged.",
    ["inputs", "configurations"],
    "all meshes with hidden and empty cells x selections (indices, arrays, masks, inverted, none, all) x dimensions x methods",
    "Tests extract from one or two meshes without hidden or empty cells.",
    ["pvgridder/utils/_misc.py"],
    [("extract_cells, extract_cells_by_dimension", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets cells, dimension: every extracted cell is compared with the selected one (type, coordinates in order, faces of polyhedra, data, flags, original index); all linear and quadratic cell types for the dimension.",
)
prop(
    "C20",
    "Cell connectivity, centres, dimension and groups describe the mesh",
    "The connectivity lists for every cell its vertices in order, or its faces for polyhedra, and flattened it rebuilds the mesh as an unstructured grid. The centre of a linear cell is the mean of its vertices and that of a polyhedron the centre of its bounding box, the mean of its vertices or the centroid of its volume depending on the method, NaN standing for empty cells and hidden cells being treated as any other. The dimension is the largest of those of the cells, and the groups of cells are names when the mesh has labels, numbers otherwise, and None without the array, for any array name.",
    ["inputs", "configurations"],
    "all meshes (every kind and cell type, hidden and empty cells, asymmetric polyhedra) x methods x group numberings",
    "Tests query five fixed meshes.",
    ["pvgridder/utils/_properties.py"],
    [("get_cell_connectivity, get_cell_centers, get_dimension, get_cell_group", "pvgridder/utils/_properties.py")],
    TECH, NOTE,
    "facets connectivity, centers, group: against the generator's own tables; the volume centroid by a fan of tetrahedra. Centres of polygons (only bounded) and pyramids are VTK's and not judged.",
)
prop(
    "C21",
    "Splitting and merging lines keeps their order, coordinates and data",
    "Splitting gives one polydata per line, in order, with the points of that line in order and in their own precision, made of segments or of a single polyline as asked, with the point and cell data of the line, whatever vertices or faces come with the lines. Merging gives all the lines of its inputs in order, coincident points being merged, with the point and cell arrays that are present in all of them. Inputs are left unchanged.",
    ["inputs", "configurations"],
    "all sets of polylines and segments sharing or revisiting points x other cells x data layouts x as_lines",
    "Tests split and merge two-line examples without data, vertices or faces.",
    ["pvgridder/utils/_misc.py"],
    [("split_lines, merge_lines", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets split, merge: exact sequences of coordinates, cells and data (numbers, components, strings) against the generated lines.",
)
prop(
    "C22",
    "Decimated and reconstructed lines keep the shape and points they should",
    "Decimation keeps the ends of every polyline and, recursively, the vertex that is farthest from the line through the ends of its stretch whenever it is farther than the tolerance, dropping all others, with the kept vertices unmoved and in order. Reconstruction goes through every given point exactly once from the given start, closed if asked, along a path that is not longer than the given order and that no reversal of a stretch shortens by more than the tolerance, in particular in the order of the outline for points of a convex curve. It accepts 2D or 3D coordinates and any dataset, in any precision and with coincident points, and rejects other coordinates.",
    ["inputs", "configurations"],
    "all polylines and tolerances x all orders, starts, precisions and forms of up to nine points",
    "Tests decimate one line and reconstruct one circle.",
    ["pvgridder/utils/_misc.py"],
    [("decimate_rdp, reconstruct_line", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets decimate, reconstruct, reject: a reference recursion (cases within rounding of the tolerance or with ties are skipped) and 2-opt optimality recomputed on every pair.",
)
prop(
    "C23",
    "Averaging points merges exactly those within the tolerance",
    "Points of a surface or point cloud linked by chains of distances not larger than the tolerance are replaced by a single point, their mean (all points counting, used or not), and all other points are left where they are. Faces keep their vertices in order without repetition and vanish when fewer than three are left, the original indices of the faces that remain being listed. Meshes with lines are rejected.",
    ["inputs", "configurations"],
    "all surfaces with perturbed copies of shared points, thin cells, unused points, and point clouds x tolerances",
    "Tests average one small example.",
    ["pvgridder/utils/_misc.py"],
    [("average_points", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets faces, cloud, lines: single-linkage clusters computed by brute force; distances within rounding of the tolerance and faces pinched between their ends are skipped.",
)
prop(
    "C24",
    "Boundary polygons are the loops of edges used by a single cell",
    "The boundary of a surface is one closed line per loop of edges that belong to a single cell, of any length and in any plane, whether or not cells share their points and whatever dataset type or closed lines describe the surface, each with a face of the same vertices when filled; a closed surface has none (None). With holes, each outer loop (also one that lies in a hole of another piece) comes first in a list with exactly the holes of its piece, or, filled, as a mesh that covers the outer loop minus its holes. The input is left unchanged.",
    ["inputs", "configurations"],
    "all surfaces of mixed cells with cells removed (several pieces, several holes) x planes x forms x fill x with_holes",
    "Tests extract the boundary of one or two plain meshes.",
    ["pvgridder/utils/_misc.py"],
    [("extract_boundary_polygons", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets mesh, grid, lines, long, closed: loops are rebuilt from edge counts, holes by point-in-polygon. Loops touching at a point and islands within holes are not generated.",
)
prop(
    "C25",
    "Offset polygons have every edge moved by the distance, outwards if positive",
    "Offsetting a planar polygon moves every edge parallel to itself by the distance, outwards when positive and inwards when negative, and puts each vertex at the intersection of its two moved edges (straight ahead where edges are aligned), for convex and concave polygons, either orientation, the three coordinate planes, points or faces, and each of several polygons on its own. A distance of zero gives a copy. Polygons that are not planar and meshes without faces are rejected.",
    ["inputs", "configurations"],
    "all simple polygons x orientations x planes x distances x forms x numbers of polygons",
    "Tests offset a square about the origin.",
    ["pvgridder/utils/_misc.py"],
    [("offset_polygon", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets offset, reject: edges moved by their outward normal (orientation from the signed area) and intersected by the oracle.",
)
prop(
    "C26",
    "Fusing cells replaces each group by its outline and nothing else",
    "Fusing a connected group of cells of a 2D mesh replaces it by the polygon of its outline, at the place of the first given cell and with its data, while all other cells keep their order, type, vertices and data and points their data, for indices in any order or masks, one or several groups. Metadata of the mesh is kept and the input unchanged. Groups that are not connected and meshes that are not 2D are rejected.",
    ["inputs", "configurations"],
    "all mixed surfaces x connected groups in any order x forms of selection x data",
    "Tests fuse one group of one mesh and compare counts.",
    ["pvgridder/utils/_misc.py"],
    [("fuse_cells", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets fuse, reject: outlines rebuilt from edges used once; rings around a hole, overlapping groups and hidden cells are not generated.",
)
prop(
    "C27",
    "Remapping categories changes values and labels together, all at once",
    "Remapping integer cell or point data replaces every listed category, given by value or by label, by its new value, all at once (swaps and chains included), and leaves every other value, array and metadata as it was. Labels follow the categories they name, those of categories without data being removed and the others ordered by value. It returns a new mesh and leaves the input alone, or None when done in place; unknown labels, data that is not integer and unknown preferences are rejected without touching the mesh.",
    ["inputs", "configurations"],
    "all category sets, labellings and mappings (swaps, chains, merges, absent values) x mesh kinds x cell/point x in place",
    "Tests apply one disjoint mapping.",
    ["pvgridder/utils/_misc.py"],
    [("remap_categorical_data", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets remap, reject: a dictionary model of the simultaneous substitution; complete snapshots of the mesh before and after.",
)
prop(
    "C28",
    "A cast ray reports every face or edge it crosses, once",
    "Casting a ray between two points on a 3D mesh or surface reports each face, and on a 2D mesh or lines each edge, that the segment crosses, exactly once, with its vertices, the point of intersection and all the cells (or the cell of the surface) it belongs to, for every kind of mesh and both directions. With a maximum angle, faces whose normal makes a larger angle with the ray are left out. None is returned when nothing is hit, and surfaces mixed with lines are rejected.",
    ["inputs", "configurations"],
    "all meshes and cell types x segments starting and ending inside or outside, oblique or along an axis x maximum angles",
    "Tests cast one ray through two meshes.",
    ["pvgridder/utils/_misc.py"],
    [("ray_cast", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets ray, reject: segment-plane and segment-segment intersections in double precision; rays within 1e-3 of an edge or parallel to a face, and angles at the limit, are skipped.",
)
prop(
    "C29",
    "A polyline is cut into one piece per visited cell, correctly labelled",
    "Intersecting a polyline with a mesh cuts it where it enters and leaves cells, in order: each piece lies in one cell, whose index it carries (-1 for the parts outside), with the index of the segment of the line it starts on, its length, and the cell data of that segment, the ends of the line being inside or outside. Parts before the first entry or after the last exit are left out on request. Coordinates keep the precision of the line and neither input is changed.",
    ["inputs", "configurations"],
    "all lines of one to four segments (polyline or segments) entering a convex mesh once x mesh kinds (grids, mixed 3D cells, tetrahedra, Voronoi polygons and prisms, planar surfaces) x options",
    "Tests intersect one vertical line with one mesh.",
    ["pvgridder/utils/_misc.py"],
    [("intersect_polyline", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facet line: crossings with all faces or edges, midpoints located by the oracle. Lines that graze an edge or re-enter the mesh are skipped; a vertex of the line within a cell is not a cut (one chord per visit), and pieces shorter than the minimum length are not generated.",
)
prop(
    "C30",
    "Quadratic cells keep their corners and add mid-edge nodes in order",
    "Turning a mesh of triangles and quads into quadratic cells keeps every cell in order with its corners first, at the same points in the same order, followed by the middle of each edge in order, for any mixture, orientation and plane. Any other cell, anywhere in the mesh, is rejected. The input is left unchanged.",
    ["inputs"],
    "all surfaces of triangles and quads, any order and orientation, with duplicated and unused points",
    "Tests check one cell of each type.",
    ["pvgridder/utils/_misc.py"],
    [("quadraticize", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets quadratic, reject: corners and midpoints recomputed cell by cell.",
)
prop(
    "C31",
    "Interactive selections return what was picked or lassoed",
    "Picking selects the cells or points that were picked an odd number of times, once each, and highlights exactly those at any time, with the requested picking mode, picker, tolerance, view, projection and plotting options on the given plotter or on a new one. A lasso selects exactly the cells whose centre, or the points, that are inside the drawn polygon seen along the axis of the view (any of the coordinate planes, either side, polygon drawn in either direction, clicks at any depth), and returns the polygon if asked. Unknown views are rejected before anything is shown, and the mesh is left unchanged.",
    ["histories", "inputs", "configurations"],
    "all sequences of clicks x meshes x views x options",
    "The only test opens an off-screen window without any click.",
    ["pvgridder/utils/_interactive.py"],
    [("interactive_selection, interactive_lasso_selection", "pvgridder/utils/_interactive.py")],
    TECH, NOTE,
    "facets pick, lasso, view: a recording stand-in for the plotter plays generated clicks through the registered callbacks; point-in-polygon by the even-odd rule with a margin. No window or OpenGL is involved.",
)
prop(
    "C32",
    "Functions leave their arguments alone and depend on nothing else",
    "No constructor, builder or utility of the public API (remapping in place apart) alters its arguments: meshes with their points, cells, arrays and metadata, arrays, lists and dictionaries are the same before and after, even when the call fails. Calling again with the same or equal arguments gives an equal result. Altering the result of a constructor, builder or utility (cell extractions, connectivity and connections apart) changes neither its arguments nor another result.",
    ["inputs", "histories"],
    "all public functions and classes x argument containers (arrays, lists, tuples, single precision, meshes of every kind) x data and metadata",
    "Tests never look at arguments after a call.",
    ["pvgridder/core/geometric_objects.py", "pvgridder/core/_helpers.py", "pvgridder/core/stack.py", "pvgridder/core/extrude.py", "pvgridder/core/merge.py", "pvgridder/core/voronoi.py", "pvgridder/utils/_misc.py", "pvgridder/utils/_properties.py", "pvgridder/utils/_connectivity.py"],
    [("every public function", "pvgridder/__init__.py")],
    TECH, NOTE,
    "facets core, utils: one table of 46 calls with generated arguments; deep snapshots before and after the call, after a second call, and after overwriting the result.",
)
prop(
    "C34",
    "Builders, Voronoi meshes and filters chain without loss",
    "Chaining the parts of the library as its examples do (sectors, rings and the square around them merged in named groups, turned and merged again, optionally re-meshed as Voronoi cells, then extruded or stacked in layers and filtered by group) gives one conforming mesh at each step: no edge or face belongs to more than two cells, the boundary encloses the area of the cells, areas and volumes of groups and cells are those of the pieces, groups of layers override those of the plan, each cell has for neighbours those of its plan in its layer and those above and below, and a vertical well crosses the layers of one column from top to bottom with their thicknesses.",
    ["inputs", "histories", "configurations"],
    "all numbers and radii of rings x resolutions x groups x order of the pieces x quarters x layers x filters",
    "Tests check each part on a fixed input, never the result of one given to the next.",
    ["pvgridder/core/merge.py", "pvgridder/core/voronoi.py", "pvgridder/core/extrude.py", "pvgridder/core/stack.py", "pvgridder/core/geometric_objects.py", "pvgridder/utils/_connectivity.py", "pvgridder/utils/_misc.py"],
    [("MeshMerge, VoronoiMesh2D, MeshExtrude, MeshStack3D, extract_cells, get_neighborhood, extract_boundary_polygons, intersect_polyline", "pvgridder/__init__.py")],
    TECH, NOTE,
    "facet pipeline: closed formulas for areas and volumes, adjacency of the plan recomputed from vertices and multiplied by the layers. Plans with an edge shorter than 1e-6 of their size (rounding of Voronoi vertices) are not extruded and labelled.",
)
prop(
    "C35",
    "Example meshes have the documented shape wherever they are probed",
    "The example meshes that need no download have the shape they are described by: the half stadium is one prism with as many chords as its resolution, the concave polyhedron is an L-shaped prism, a vertical line anywhere through the anticline crosses its 14 layers in order with the thicknesses and groups of its definition, and the well (plain or Voronoi) is a conforming mesh of a 20 x 20 square with concentric core, casing, cement and matrix, 30 deep in 10 layers, the core and casing of which rise 3 above, so that the pieces of any well crossing it belong to the group of their position.",
    ["inputs", "configurations"],
    "all resolutions x options x positions and inclinations of lines",
    "Tests use the examples as inputs and never look at their shape.",
    ["pvgridder/examples/examples.py"],
    [("load_anticline_2d/3d, load_concave_polyhedron, load_half_stadium, load_well_2d/3d", "pvgridder/examples/examples.py")],
    TECH, NOTE,
    "facets polyhedra, anticline, well: closed formulas; groups at a point from the radii of the rings (polygons of 8 sides per quarter) with a margin of 5e-3. load_topographic_terrain downloads its data and is not covered.",
)
prop(
    "C36",
    "Unusable arguments are refused and a refused call leaves no trace",
    "An argument outside what is documented (subdivision method or positions, radii, shape of points, vector or centre, plane, view, axis, kind or dimension of the base mesh, cell type, engine, mapping or selection, mesh without boundary) raises the error of its kind (ValueError, TypeError for the dimension of what is not a mesh, NotImplementedError for the geometry of unsupported cells anywhere in a mesh), while the documented ones next to it are accepted. After a call that fails (including callables that raise or return the wrong size, and a generation that fails half-way) a builder has the same items, pending transition and fused cells as before, so that what it generates next is the same as if the call had never been made. A failed meshing of a polygon leaves gmsh stopped and the next one right.",
    ["inputs", "histories", "fault_sequences"],
    "all public constructors and builders x unusable arguments x histories of good and refused calls",
    "Tests check a few errors on fresh objects and never use a builder again after one.",
    ["pvgridder/core/_base.py", "pvgridder/core/_helpers.py", "pvgridder/core/stack.py", "pvgridder/core/extrude.py", "pvgridder/core/voronoi.py", "pvgridder/core/geometric_objects.py", "pvgridder/utils/_misc.py", "pvgridder/utils/_properties.py"],
    [("_check_point_array, MeshStackBase.add", "pvgridder/core/_base.py"), ("resolution_to_perc", "pvgridder/core/_helpers.py"), ("VoronoiMesh2D.add_circle", "pvgridder/core/voronoi.py"), ("extract_cell_geometry", "pvgridder/utils/_misc.py")],
    TECH, NOTE,
    "facets subdivision, argument, history, gmsh, and the rejections of other properties: each bad call is generated next to a good one; histories with refused calls interleaved are compared with the same history without them (meshes equal in every array). The group of an item is replaced for a moment by a callable that raises to make a generation fail.",
)
