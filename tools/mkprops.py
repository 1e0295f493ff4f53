"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
M='meshmagick/mesh.py'; C='meshmagick/mesh_clipper.py'; H='meshmagick/hydrostatics.py'; I='meshmagick/inertia.py'
IO='meshmagick/mmio.py'; R='meshmagick/rotations.py'; T='meshmagick/tools.py'; CLI='meshmagick/cli.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('P01','Derived mesh quantities are never stale',
 "After any sequence of queries and modifications of a mesh (translations, rotations, scalings, flips, mirroring, symmetrizing, merging, healing, removing, triangulating, assigning vertices or faces), every quantity the mesh reports - face areas, normals and centres, triangle/quadrangle ids and counts, surface integrals, volume, inertias, vertex/vertex, vertex/face and face/face connectivity, boundaries, closedness, bounding box, edge lengths - equals the one defined by its current vertices and faces. What was queried earlier, and when, never changes an answer.",
 ['histories','inputs'],'every history of queries and modifications of a mesh object, over every mesh with non-degenerate faces',
 'The tests query quantities once on one mesh file, never query-modify-query again in the many orders that leave a cached value behind.',
 [M],[('cached internals and their invalidation',M+': Mesh._faces_properties, _connectivity, _remove_*')],
 [('cached internals','derived arrays kept between calls',M+': Mesh.__internals__')],['public attributes and methods of Mesh'])
p('P02','Mesh transforms are the exact documented affine maps',
 "Translations, scalings (global or along one axis), rotations about the fixed axes x, then y, then z (R = Rz.Ry.Rx, returned to the caller), rotations by a matrix and reflections in a plane move every vertex by exactly that map, up to rounding. They keep the faces, except that a reflection and a normal flip reverse the orientation of every face, and successive operations compose.",
 ['inputs','histories'],'every mesh, every parameter of each transform (any sign, size and angle), and every composition of transforms',
 'Tests apply one fixed value of a few transforms and barely look at the result; parameters are continuous and compositions unbounded.',
 [M,R],[('vertex updates',M+': Mesh.translate*, rotate*, scale*, flip_normals, mirror'),('Cardan rotation matrix',R+': cardan_to_rotmat')])
p('P03','Areas, volume, mass and inertia are the exact integrals',
 "For a closed, outward oriented mesh with planar faces, the reported volume, and the mass, centre of gravity and inertia (at the origin) of the homogeneous solid of any density, are the exact integrals over the enclosed polyhedron; for any mesh with planar faces, the shell inertia of any density and thickness is the exact integral over the surface. Face areas, normals, centres and surface integrals are those of the face, triangle or quadrangle, wherever it lies and in whatever mixture.",
 ['inputs'],'every polyhedral surface (triangles, quadrangles, mixtures; any position, size, topology) and every density and thickness',
 'Tests compare one cylinder, whose symmetry hides products of inertia and sign or axis mistakes.',
 [M,I],[('surface integrals',M+': Mesh._compute_triangles_integrals'),('assembly of inertias',M+': Mesh.eval_plain_mesh_inertias, eval_shell_mesh_inertias, volume')])
p('P04','Rigid body inertia obeys the parallel-axis theorem',
 "An inertia expressed at a point, moved to any other reduction points in turn, is at each of them the inertia at the centre of gravity plus the parallel-axis term, whatever the path; asking for the inertia at the centre of gravity returns an independent object and leaves the original unchanged. Mass and centre of gravity never change with the reduction point, the matrix is symmetric with the moments on its diagonal and the negated products off it, and shifting to the centre of gravity twice is the same as once.",
 ['histories','inputs'],'every mass, centre, inertia, initial reduction point and sequence of reduction-point changes and queries',
 'Tests try one inertia already expressed at its centre of gravity; the error appears only for an inertia built at another point or after several moves.',
 [I],[('transport of the matrix',I+': RigidBodyInertia.reduction_point, at_cog, shift_at_cog, _huygens_transport')],
 [('reduction point, centre, matrix','state of the object',I+': RigidBodyInertia')])
p('P05','Merging duplicate vertices never joins or moves apart what it must not',
 "Merging with tolerance t makes any two vertices with identical coordinates one vertex, never identifies two vertices that differ by more than t along some axis, moves no face corner by more than t along any axis, keeps every face (same order, same corners), and the index map it returns sends every old vertex to its new one. When vertices form clearly separated clusters no wider than t, exactly one vertex per cluster remains.",
 ['inputs','configurations'],'every vertex array (duplicates, near-duplicates, chains, shuffled orders, ties along axes) and every tolerance',
 'Tests merge one mesh once and count; the sorted-window algorithm misbehaves only on particular coincidences of coordinates along axes.',
 [T,M],[('lexicographic windows',T+': merge_duplicate_rows'),('renumbering of faces',M+': Mesh.merge_duplicates')])
p('P06','Healing normals orients every face consistently, and outward when closed',
 "Healing the normals of a conformal orientable mesh only reverses faces: every face keeps its corners, and afterwards any two adjacent faces run their shared edge in opposite directions. When the mesh is closed and in one piece every normal points outward, whichever faces were reversed before and whatever had been queried on the mesh earlier.",
 ['inputs','histories'],'every conformal orientable mesh (open, closed, several pieces), every subset of reversed faces, every earlier query',
 'The tests heal one mesh and do not check orientations; a flood fill fails only for particular adjacency patterns and reversals.',
 [M],[('flood fill and outward test',M+': Mesh.heal_normals')])
p('P07','Connectivity, boundaries and closedness are exact',
 "On a conformal mesh, vertex neighbours are exactly the ends of shared edges, vertex faces exactly the faces using the vertex, and face neighbours exactly the faces sharing an edge. For consistently oriented faces, the boundaries are closed loops running through each boundary edge exactly once, in one consistent direction; and a mesh is reported closed exactly when no edge belongs to a single face, however its faces are oriented.",
 ['inputs'],'every conformal mesh: triangles and quadrangles mixed, holes, several pieces, isolated vertices, any vertex numbering and corner rotation',
 'Tests look at one file; corner rotations, numbering and hole patterns that matter are combinatorial.',
 [M],[('connectivity tables',M+': Mesh._connectivity'),('closedness',M+': Mesh.is_mesh_closed')])
p('P08','Cleaning operations remove exactly what they name',
 "Removing unused vertices keeps exactly the vertices used by faces and every face's corner positions; healing triangles makes every face with one repeated consecutive corner a triangle in the library's convention with the same corners and orientation and leaves proper quadrangles alone; removing degenerate faces keeps, in order, exactly the faces whose area is at least the mean area times the tolerance. The full healing yields a mesh with no coincident vertices, only consistent triangles, no tiny face and consistent (outward, if closed and connected) normals that covers the same surface.",
 ['inputs','histories'],'every mesh with any number of unused, duplicated or degenerate elements at any place, and every tolerance',
 'Tests run each operation on one healthy mesh, on which it does nothing.',
 [M],[('cleaning',M+': Mesh.remove_unused_vertices, heal_triangles, remove_degenerated_faces, heal_mesh')])
p('P09','Triangulating, symmetrizing, adding and extracting preserve the surface',
 "Triangulation replaces each quadrangle by the two triangles of its first diagonal with the same orientation and leaves triangles alone; symmetrizing yields the original faces plus their mirror images, reversed, joined along the plane; adding two meshes yields the faces of both with coincident vertices merged; extracting faces yields exactly those faces, in order, on exactly the vertices they use, with the map to the old numbering. No face is lost, duplicated, moved or turned over.",
 ['inputs','histories'],'every mesh, mixture of triangles and quadrangles, plane and selection of faces',
 'Tests check counts on one mesh at most; orientation and seam errors keep counts.',
 [M],[('construction of the new faces',M+': Mesh.triangulate_quadrangles, symmetrize, __add__, extract_faces')])
p('P10','Clipping keeps exactly the part of the surface below the plane',
 "Clipping a mesh by a plane yields, for every face, exactly its part on the side opposite to the normal: faces entirely below unchanged, faces entirely above dropped, crossing faces cut at the exact intersection points with their orientation kept, for every way a triangle or quadrangle can meet the plane, including vertices lying on it. The lower, crown and upper parts partition the faces of the source; a mesh entirely on one side is refused with an error naming the side, and changing the plane or the tolerance gives the result of a new clipper.",
 ['inputs','histories'],'every mesh (a quadrangle that is not plane and meets the plane more than twice being its two triangles) and every plane, all sign patterns of face corners against the plane in every rotation, any change of plane or tolerance',
 'Tests clip one mesh by one plane; the two dozen case branches each depend on a corner pattern and its rotation.',
 [C,M],[('face case analysis',C+': MeshClipper._clip_crown_by_plane'),('classification',C+': _vertices_positions_wrt_plane, _partition_mesh')],
 [('partition and result','recomputed when the plane or tolerance changes',C+': MeshClipper.__internals__')])
p('P11','The clip boundary is the exact set of oriented waterline loops',
 "The polygons and lines reported by clipping run through every edge the cut creates on the plane exactly once and through no other edge, counter-clockwise about the plane normal for an outward oriented mesh. For a watertight mesh crossed regularly by the plane every one of them is a closed polygon lying on the plane, as many as the section has contours; when closed boundaries are demanded, clipping fails exactly if some line is open.",
 ['inputs'],'every mesh (one or more contours, holes, nested contours, open meshes) and plane, vertices on the plane included',
 'Tests never inspect the polygons; chaining errors need several loops, merged vertices or particular dictionary orders.',
 [C],[('chaining of boundary edges',C+': MeshClipper._clip_crown_by_plane')],None,['closed_polygons, open_lines and their vertices'])
p('P12','Hydrostatic quantities are exact for any hull, attitude and reference',
 "For a watertight hull with planar faces crossing the waterplane, at any attitude and immersion, the displaced volume and mass, wetted area, buoyancy centre, waterplane area, centre and extents, metacentric radii and heights, stiffness matrix and immersed-hull inertias are the exact integrals over the immersed volume and the waterplane, those given in the initial frame being given in it. The stiffness is symmetric, scales with density and gravity, and uses the given centre of gravity; the input mesh and arrays are left unchanged.",
 ['inputs','configurations'],'every hull, rotation, immersion, density, gravity, centre of gravity and reference option',
 'Tests evaluate one or two hulls upright and compare few numbers, so axis, sign and frame errors that vanish there pass.',
 [H,C,M],[('waterplane and volume integrals',H+': compute_hydrostatics')])
p('P13','Displacement equilibrium reaches the requested displacement',
 "For a watertight hull crossing the waterplane and a displacement it can reach, whether it starts across the waterplane or wholly under it, the returned vertical correction puts the displaced mass within the relative tolerance of the target. The hull is not modified, and a hull that does not touch the water is reported with the library's clear error or a limit, not a crash.",
 ['inputs','configurations'],'every hull, initial immersion, target displacement, density and tolerance',
 'Tests solve one hull for one displacement and do not recompute the displacement at the answer.',
 [H],[('iteration with relaxation',H+': displacement_equilibrium')])
p('P14','Full equilibrium balances weight and buoyancy',
 "For a stable hull, the returned attitude and immersion satisfy the three equilibrium conditions within the tolerance: displaced mass equal to the target, and buoyancy centre on the vertical of the centre of gravity in both horizontal directions. The returned rotation is a proper rotation, applied about the initial origin before the vertical correction, and nothing passed in is modified.",
 ['inputs','configurations'],'every stable hull, centre of gravity (on or off the symmetry planes), displacement, density, gravity',
 'Tests run one hull and compare to recorded numbers; a sign error in one direction cancels for a symmetric hull.',
 [H],[('3 dof Newton iteration',H+': full_equilibrium')])
p('P15','A mesh written to a file and read back is the same mesh',
 "For every format that can be both written and read, reading the file just written gives the same faces, in number, order (within the triangles and within the quadrangles where the format lists them apart), corners and orientation, and vertex coordinates equal to the precision the format prints. Formats of separate panels give the corners of each face, with identical points merged. Writing never modifies the caller's vertices and faces, and formats that only hold triangles hold the two triangles of each quadrangle.",
 ['inputs','configurations'],'every mesh (any number of vertices and faces including one, any mixture, any magnitude and sign of coordinates) and every format',
 'Tests write and read one mesh of one size in each format and do not compare the contents.',
 [IO],[('writers and readers',IO+': write_*, load_*')],None,['load_mesh, write_mesh and the file contents'])
p('P16','Files are parsed as their format defines, and refused otherwise',
 "A file laid out as its format allows - node numbers that are not consecutive or sorted, comments, blank lines, several sections, scientific notation, any mixture of triangles and quadrangles - is read as the mesh it describes, and a written file is laid out as the format prescribes: counts in its header, numbering base, triangle convention, no symmetry declared. An unknown format, a missing file, a file cut before the end of what it announces, faces that name nodes the file does not hold, and writing in a format without writer are refused with an error, never read as a smaller mesh nor endlessly.",
 ['inputs','configurations'],'every well-formed file of the text formats, every written file',
 'Tests read a handful of sample files; the numbering and layout variations a format allows are not sampled.',
 [IO],[('parsers',IO+': load_*'),('layout',IO+': write_*')])
p('P17','The command line applies its operations in the documented order',
 "Whatever options are combined and in whatever order they are typed, the command reads the input, applies each requested operation once with its given value and in the documented order (translations, then rotations in degrees, then scalings), and writes the result in the requested or extension-derived format. An option not given has no effect, the input file is unchanged unless named as output, unusable requests end with an error. The reports it prints (mesh information, inertias, the hydrostatics of the hull in the equilibrium asked for, with the given water density, gravity, centre of gravity and length between perpendiculars) state the values of the resulting mesh.",
 ['configurations','inputs'],'every subset and typing order of the command-line options, with any values',
 'No test runs the command with combined options.',
 [CLI],[('pipeline',CLI+': main'),('option definitions',CLI+': get_parser or main')])
p('P18','A plane keeps its normal, distance and frame coherent',
 "However a plane is built and then modified (new normal, new scalar, rotations, angles), its normal stays a unit vector, signed distances are n.x - c, projections lie on the plane along the normal, edge intersections lie on both the edge and the plane and are refused when the edge does not cross, and points of the plane have zero third coordinate in the plane's frame, in which distances are preserved. The angles reported for the normal rebuild that normal.",
 ['histories','inputs'],'every plane, sequence of modifications and query points',
 'Tests build one plane; inconsistency between normal, scalar and frame shows only after modifications.',
 [M],[('plane state',M+': Plane')],[('normal, scalar, frame rotation','three redundant pieces of state',M+': Plane')])
p('P19','Rotation representations convert to one another without loss',
 "Converting a rotation between quaternion, matrix, axis-angle and Cardan angles, in any chain, gives representations of the same rotation; matrices are proper rotations, quaternions and axes are unit, for every angle, including zero, half turns and the gimbal-lock attitudes. Cardan angles are those of successive rotations about the fixed axes x, y, z.",
 ['inputs'],'every rotation, every pair and chain of conversions, singular attitudes included',
 'The self test samples quaternions with positive components only and no singular attitude.',
 [R],[('conversions',R)])
p('P20','Operations never modify their operands',
 "Copies, sums, extractions, clippings, hydrostatic computations, equilibria, inertia evaluations, file writing and display data leave the meshes, planes and arrays they are given unchanged, and the objects they return share no data with them: modifying either later never changes the other. A mesh likewise never aliases the arrays it was built from or assigned.",
 ['histories','inputs'],'every interleaving of operations over several meshes sharing a past',
 'Tests never look at the operand afterwards nor modify the result.',
 [M,C,H,IO],[('copies',M+': Mesh.__init__, copy, extract_faces, __add__; '+C+'; '+H+': compute_hydrostatics')])
p('P21','Closed-form solids report their exact mass and inertia',
 "Each elementary solid and shell of the library reports the exact mass and principal moments about its centre of gravity along the documented axes, for every dimension and density, and they agree with one another where the shapes coincide (hollow with zero inner radius, cube as prism, ellipsoid with equal axes, hemisphere against sphere).",
 ['inputs'],'every solid and shell, every positive dimension and density',
 'Only the cylinder is compared by a test.',
 [I],[('closed forms',I+': right_circular_cylinder ... hemispherical_shell')])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
