import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    P.append(d)
M,N,ME,MO,SO,I,R,W=[f"src/fibermat/{x}.py" for x in "mat net mesh model solver interpolation render widgets".split()]

p("C01","Generated fiber sets obey their parameters",
"For every parameter set, a generated Mat has exactly n fibers labelled 0..n-1 in order of non-decreasing height, every one with the requested length, width, thickness and moduli, a center inside the box of the requested size on all three axes, and a unit direction whose in-plane angle is within ±theta/2 and whose out-of-plane angle is within ±psi/2. Centers and angles are spread over the whole of these ranges. The attributes record n and size.",
["inputs"],"all n >= 0, dimensions, sizes, angles, moduli (finite or infinite) and seeds (including None)",
"tests build Mat(100) with default parameters and look at one seed; psi, other sizes, angles and n are never compared with what was asked for",
[M],[("uniform draws scaled by size, theta and psi, heights sorted","Mat.init")],["columns and attrs of Mat(...)"])
p("C02","Mat generation is reproducible and its parameters act independently",
"Two Mats generated with the same parameters and seed are identical, whatever was generated or drawn in between, and different seeds give different fibers. With the seed and n kept, changing size only rescales the positions, changing theta or psi only changes directions, and changing the dimensions or moduli changes only these columns.",
["inputs","histories"],"all parameter sets and all histories of generations and random draws before the call",
"a hyperproperty over pairs of runs and histories; the tests compare no two generations",
[M],[("seeding before any draw, fixed number of draws","Mat.init")],["columns of several Mat(...) calls in one process"])
p("C03","The Mat checker accepts exactly the well-formed fiber sets",
"Mat.check returns True on a table that has all fiber columns, attributes n and size, labels 0..n-1 in order, positive dimensions and moduli, centers inside the box and unit directions (z is free), and on any other table it raises the documented kind of error for one of its defects: KeyError for a column, AttributeError for an attribute, IndexError for labels, ValueError for a wrong number of fibers or for data. The position of the defective fiber in the table does not matter, and constructing a Mat from a table applies the same decision.",
["inputs"],"all tables over the fiber columns, with no, one or several defects at any place",
"tests only check tables which the library itself generated; no defect is ever presented to the checker",
[M],[("ordered tests in the checker","Mat.check"),("constructor asserts the checker","Mat.__init__")],["return value or exception of Mat.check and Mat(table)"])
p("C04","A non-periodic network connects exactly the crossing fibers",
"Without periodicity, two distinct fibers are connected exactly when they are not parallel, their centers are closer in the plane than the mean of their lengths, and the mutually nearest points of their two lines lie strictly inside both fibers (for in-plane fibers: when their projections cross). Every such pair is connected exactly once and no other pair is.",
["inputs"],"all fiber sets: any number, mixed lengths, any orientations including parallel and axis-aligned fibers, out-of-plane angles, any input order",
"completeness over all pairs of fibers is quadratic in the input; the tests only validate the table's format on a few random mats",
[N],[("all-pairs enumeration, neighborhood filter, normal equations, strict bounds","Net.init")],["rows of Net(mat, periodic=False)"])
p("C05","A periodic network sees every crossing through the box boundaries",
"With periodicity and no fiber longer than the box, two distinct fibers are connected exactly when they cross after shifting one of them by some combination of whole box sizes along x and y (the zero shift included). Each such pair is connected exactly once, at abscissas where the two fibers really cross for one of these shifts.",
["inputs"],"all fiber sets with length <= size, in particular fibers near each edge and each of the four corners, mixed lengths, any ratio of length to size",
"a corner or edge image only matters for a few configurations that random samples rarely hit; the tests never compare a periodic network with the true crossings",
[N],[("duplication of fibers along edges and corners, then removal of repeated pairs","Net.init")],["rows of Net(mat)"])
p("C06","Connection nodes lie on their fibers at the mutually nearest points",
"In every network, the coordinates of each node are the center of its fiber plus its abscissa times the fiber's direction, and for a connection between two distinct fibers both abscissas are strictly inside the fibers and the segment joining the two nodes (up to a whole box shift when periodic) is perpendicular to both fibers.",
["inputs"],"all fiber sets with any orientations, lengths, order of heights, periodic or not",
"needs an exact geometric oracle for every row; tests only look at column names and label types",
[N],[("solution of the normal equations, A/B swap of abscissas, node positions from labels","Net.init")],["sA,sB,xA..zB of Net rows"])
p("C07","A network table is canonical and holds both ends of every fiber",
"A network built from n fibers has for every fiber exactly one row linking it to itself, at abscissas +l/2 and -l/2, and its other rows have A < B; rows are sorted by (A, B) without repetition and labelled 0..m-1, A and B are integers, and the attributes n, size and periodic are those of the call. A network of an empty fiber set is empty.",
["inputs"],"all fiber sets and both boundary conditions, n from 0 up, sizes smaller or larger than the fibers",
"the tests check this only on the default Mat(100) and the empty one",
[N],[("self pairs kept, sort and removal of duplicates","Net.init")],["index, A, B, sA, sB, attrs of Net"])
p("C08","A network does not depend on arbitrary choices of frame, order or unit",
"Without periodicity, or with size >= 2*length, mirroring or turning the box by a right angle, changing the unit of length, reversing the direction of any fiber, raising all heights, and, when periodic, translating all fibers in the periodic box, leave the set of connected pairs unchanged and transform the abscissas accordingly; relabelling the fibers relabels the connections.",
["inputs"],"all in-plane fiber sets and all these transformations",
"a relation between the results of several runs; tests compare no two networks",
[N],[("symmetric treatment of the two axes, the two fibers and the images","Net.init")],["rows of Net for a mat and its transform"])
p("C09","The Net and Stack checkers accept exactly the well-formed networks",
"Net.check (and Stack.check) returns True on a table that has all connection columns, attributes n, size and periodic, row labels 0..m-1 in order, integer fiber labels in 0..n-1 with A <= B, and no repeated (A, B, sA, sB), and on any other table it raises the documented kind of error for one of its defects: KeyError, AttributeError, IndexError, TypeError or ValueError. The position of the defective row does not matter, and constructing a Net or Stack from a table applies the same decision.",
["inputs"],"all tables over the connection columns, with no, one or several defects at any place",
"tests only check tables which the library itself generated",
[N],[("ordered tests in the checker","Net.check"),("delegation","Stack.check")],["return value or exception of Net.check, Stack.check, Net(table), Stack(table)"])
p("C10","Given pairs restrict the network to these pairs",
"A non-periodic network built with a list of candidate pairs contains exactly the rows of the full network whose pair is in the list, in either order of its two labels and however often it is repeated, with the same node data; an empty list gives an empty network.",
["inputs"],"all fiber sets and all lists of pairs: any order, orientation, repetition, with and without self pairs",
"the option is used by no test",
[N],[("candidate pairs replaced by the argument","Net.init")],["rows of Net(mat, periodic=False, pairs=...)"])
p("C11","Stacked fibers rest in order without penetrating the floor or each other",
"After stacking a fiber set with a network, every fiber lies at least half its thickness above the floor, and for every connection of the network the fiber with the larger label lies above the other by at least half the sum of their thicknesses, in the fiber set and, for in-plane fibers, in the rows of the returned stack.",
["inputs"],"all fiber sets (mixed thicknesses, any heights and labels order) and networks: periodic or not, full, restricted to pairs, already thresholded, already stacked",
"universal over connections; the tests check one periodic and one finite mat with equal fibers",
[N],[("inequality rows of the linear program and its bounds","Stack.constraint, Stack.solve")],["mat.z, stack.zA, stack.zB"])
p("C12","Stacking puts every fiber at its lowest admissible height",
"After stacking, every fiber either lies on the floor or touches at least one fiber connected below it: heights are the least ones that satisfy the non-penetration conditions of the network, whatever the initial heights, the widths and lengths of the fibers.",
["inputs"],"all fiber sets with mixed dimensions and all networks",
"optimality quantifies over all admissible heights; the tests never check it",
[N],[("weights of the linear objective, bounds","Stack.constraint, Stack.solve")],["mat.z after Stack(mat, net)"])
p("C13","Stacking only moves fibers vertically",
"Stacking in-plane fibers changes nothing but the fiber heights: labels, dimensions, in-plane positions, directions and moduli are as before, the returned stack has (without threshold) the same connections, abscissas and in-plane node coordinates as the network given, its node heights are the new heights of their fibers, and its attributes are those of the network. Stacking again changes nothing.",
["inputs","histories"],"all in-plane fiber sets and networks, repeated stacking",
"tests look only at the heights of the result",
[N],[("in-place height update and rebuilding of the network","Stack.init")],["mat and stack columns, attrs"])
p("C14","A stacking threshold keeps exactly the close connections and the fiber ends",
"With a threshold, the returned stack holds exactly the rows of the stack obtained without threshold that link a fiber to itself or whose nodes are at most the threshold apart vertically, in the same order, relabelled from 0; the fiber heights are the same as without threshold.",
["inputs"],"all fiber sets, networks and thresholds, in particular thresholds equal to an occurring distance, zero, and so large that everything is kept",
"tests use no threshold",
[N],[("mask on the vertical distance","Stack.init")],["rows of Stack(mat, net, threshold=t)"])
p("C15","The stacking linear system states non-penetration and balances the weights",
"The assembled stacking system has one row per connection between two distinct fibers with +1 on A, -1 on B and bound -(hA+hB)/2, the weight pi/4*l*b*h of each fiber and its thickness. Its solution comes with contact forces which push apart, vanish on open contacts and carry each fiber's weight down to the floor, so that the floor carries the total weight.",
["inputs"],"all fiber sets with mixed dimensions and all networks",
"no test calls the assembly or looks at contact forces",
[N],[("assembly of C, f, H, h","Stack.constraint"),("linear programming dual","Stack.solve")],["Stack.constraint(mat, net), marginals of Stack.solve(mat, net)"])
p("C16","Mesh nodes and constraints correspond one to one to the connections",
"A mesh made from a network of m connections has exactly 2m nodes: each connection gives one node on each of its two fibers with the abscissa and coordinates of the connection, linked to each other by the constraint field, and each fiber end gives one node linked to itself. Nothing else is linked and no connection is lost or exchanged.",
["inputs"],"all networks: periodic or not, stacked, thresholded, restricted, with one or several crossings at the same place, isolated fibers, empty",
"a bijection between two tables for every network; the tests only run the checker",
[ME],[("flattening, partner swap, renumbering after sorting","Mesh.init")],["columns of Mesh(net)"])
p("C17","Mesh nodes are ordered along fibers and beams walk every fiber once",
"In every mesh nodes are labelled 0.. in order of fiber and, within a fiber, of abscissa; the beam field links each node to the next one of the same fiber and the last one back to the first, the constraint field is an involution whose only fixed points are the two ends of each fiber, the first and last nodes of a fiber are at -l/2 and +l/2, and fiber, beam and constraint are integers. The attributes are those of the network.",
["inputs"],"all networks that come from fiber sets",
"tests run the checker on Mat(10..100) only",
[ME],[("sorting, cyclic shift per fiber, renumbering","Mesh.init")],["columns, index and attrs of Mesh(net)"])
p("C18","The Mesh checker accepts exactly the well-formed meshes",
"Mesh.check returns True on a table that has all node columns, attributes n, size and periodic, labels 0..m-1 in order, integer fiber, beam and constraint labels in range, nodes sorted by fiber and abscissa, beams that walk each fiber cyclically, reciprocal constraints and self-linked first and last nodes; on any other table it raises the documented kind of error for one of its defects (KeyError, AttributeError, IndexError, TypeError, ValueError). The position of the defective node does not matter, and constructing a Mesh from a table applies the same decision.",
["inputs"],"all tables over the node columns, with no, one or several defects at any place",
"tests only check tables which the library itself generated",
[ME],[("ordered tests in the checker","Mesh.check")],["return value or exception of Mesh.check and Mesh(table)"])
p("C19","The stiffness matrix is the assembly of the Timoshenko beam elements",
"The stiffness matrix of a mesh is the sum, over every beam from a node to the next one of its fiber, of the documented Timoshenko element matrix for the length of the beam and the dimensions and moduli of its own fiber (limit values for an infinite tensile modulus), in the order (displacement, rotation) node by node; loads and displacements start at zero. Length bounds rescale the beam lengths linearly so that the shortest becomes at least lmin and the longest at most lmax (for bounds which leave lmin <= lmax), and the coupling factor multiplies only the terms that couple displacements to rotations.",
["inputs"],"all meshes and fiber sets with mixed dimensions and moduli, all lmin, lmax and coupling",
"the doctest covers one fiber with one beam; assembly over several fibers and the options are not tested",
[MO],[("element coefficients and scatter","stiffness")],["matrices and vectors returned by stiffness"])
p("C20","The stiffness is symmetric, non-negative and free of rigid vertical motion",
"For finite moduli and a coupling between 0 and 1, the stiffness matrix is symmetric, its quadratic form is never negative for any displacement and rotation field, a uniform vertical displacement costs no energy, and a field that lives on one fiber causes no force on another.",
["inputs"],"all meshes, fiber sets and displacement fields",
"a statement about all fields; tests look at three 4x4 matrices",
[MO],[("symmetric element matrix with non-negative eigenvalues","stiffness")],["K returned by stiffness"])
p("C21","The constraint system states floor, contact and ceiling conditions",
"For every linked pair of nodes (and every fiber end) the constraint system has three consecutive rows: the lower node stays half its thickness above the floor, the two nodes stay apart by half the sum of the thicknesses of their own fibers (no condition for a fiber end), the upper node stays half its thickness below the ceiling, which starts at the highest fiber surface; bounds are measured from the current positions, only the ceiling rows move with the ceiling, and forces start at zero.",
["inputs"],"all meshes (stacked or not, periodic or not, thresholded) and fiber sets with mixed thicknesses",
"no test covers the assembly of the constraints",
[MO],[("row triples, bounds, increments","constraint")],["C, f, H, df, dH returned by constraint"])
p("C22","Compaction never lets fibers cross each other, the floor or the ceiling",
"At every recorded step of a compaction that started from a stacked mesh, every node stays at least half a thickness above the floor and below the current ceiling, and every two linked nodes stay at least half the sum of their thicknesses apart, within the contact tolerance.",
["inputs"],"all well-posed meshes, material parameters, packing targets, tolerances and step counts",
"universal over nodes and steps; no test runs the solver",
[SO,MO],[("step length limited to the first contact","solve")],["C, u, H, Z returned by solve"])
p("C23","Every compaction step is in mechanical equilibrium with forces only at contacts",
"At every recorded step of a compaction with finite moduli, the internal forces of the deformed fibers balance the contact forces and loads at every node and rotation, and a contact force is non-zero only where the gap is closed.",
["inputs"],"all well-posed meshes, material parameters, packing targets and recorded steps",
"universal over degrees of freedom and steps; no test runs the solver",
[SO],[("saddle-point system on the active rows","solve")],["K, C, u, f, F, H returned by solve"])
p("C24","Compaction advances monotonically and stops for the right reason",
"The recorded ceiling starts at the highest fiber surface and decreases strictly, the packing ratio at each step is the initial ceiling divided by the current one, and there are at most itermax steps. The compaction goes on until the first step whose packing ratio reaches the target or until itermax steps, unless it jams (somewhere touching fibers fill the room between floor and ceiling), and takes no step when the target is already met. A step whose numerical error exceeds the error tolerance is not taken, and ends the compaction.",
["inputs"],"all well-posed meshes, targets, itermax (including 0) and tolerances",
"depends on the whole history of steps; no test runs the solver",
[SO],[("loop condition, step and ratio updates","solve")],["Z, rlambda, err returned by solve"])
p("C25","Each compaction step is a straight line up to the next contact",
"Between two consecutive recorded steps displacements, forces and bounds change proportionally to the ceiling, contacts that were closed remain closed, forces on contacts that were open remain zero, and the step ends exactly when some further gap closes: none closed before, and at least one that was open is closed at its end.",
["inputs"],"all well-posed meshes, parameters and steps",
"a relation between consecutive states of a run; no test runs the solver",
[SO],[("active set, incremental solution and smallest positive ratio","solve")],["u, f, H, Z, mask returned by solve at consecutive steps"])
p("C26","Compaction results do not depend on how the system is solved",
"For a well-posed problem the results do not depend on the permutation of unknowns, on the sparse linear solver that is passed, on verbosity, on interpolation size or on repeating the run; a smaller itermax or packing target gives a prefix of the same history.",
["inputs","configurations"],"all well-posed meshes and all permutations, solvers and display options",
"a relation between several runs; no test runs the solver",
[SO],[("permutation applied consistently to matrix, right-hand side and mask","solve")],["results of solve under different options"])
p("C27","The floor carries the compaction load, which never decreases",
"At every recorded step of a compaction with finite moduli and coupling in [0, 1], the total force of the ceiling on the fibers equals the total reaction of the floor, is never negative and never decreases from one step to the next.",
["inputs"],"all well-posed meshes, parameters and steps",
"a global balance over all contacts at every step; no test runs the solver",
[SO,MO],[("equilibrium, rigid motion without energy, active set that only grows","solve")],["f and C returned by solve"])
p("C28","Solver results are one consistent history over pseudo-time",
"Every quantity that the solver returns is a function on [0, 1] that takes its initial value at 0 (zero displacement and force, initial bounds and ceiling, ratio 1) and its final value at 1, and at the k-th of N equally spaced times all of them describe the same k-th recorded step; contact rows without condition keep infinite bounds, and the active contacts of a step are the conditions that were met when it started. With an interpolation size, displacements, forces, loads, bounds and ceiling are resampled on that many equally spaced times of the same history, while ratio, active contacts and errors keep the recorded steps. The matrices which it returns are the stiffness and constraint matrices of its arguments.",
["inputs","configurations"],"all well-posed problems including zero steps, all interpolation sizes",
"no test runs the solver or looks at its outputs",
[SO,I],[("lists of copies of each step, interpolation","solve, Interpolate")],["callable results of solve"])
p("C29","Interpolation passes through its samples and stays between them",
"An interpolated history takes the k-th sample at the k-th equally spaced time, keeps the last sample after time 1, is linear between neighboring samples (or equal to the previous sample for kind 'previous'), keeps the shape and data type of the samples and the value of components that are always infinite, and with a single sample is constant. With a size of at least two, it does so for the values of the original history at that many equally spaced times, and called without time it returns the values at its own times. (Times before 0 are not specified.)",
["inputs"],"all sample sequences (scalars, vectors, booleans, infinities; one or many), sizes and times",
"no test covers interpolation",
[I],[("two-stage interp1d","Interpolate.__init__, Interpolate.__call__")],["Interpolate(y, size, kind)(t)"])
p("C30","Exported fibers have the position, orientation, size and fields of the fiber",
"The exported grid of a fiber fills the elliptic cylinder of its length, width and thickness: its axis has the fiber's center and direction and reaches both ends, its cross-sections are ellipses as wide and thick as the fiber with the thickness upright and the width horizontal for in-plane fibers, local coordinates map to the positions by a rigid motion, and resolution arguments give the numbers of points (an even number around). Exporting a fiber set gives every fiber once, with its label, dimensions, direction and moduli as point fields.",
["inputs"],"all fibers with any orientation and dimensions, all resolutions, all fiber sets including the empty one",
"no test covers rendering",
[R],[("scaling, orientation and translation of a unit cylinder","vtk_fiber"),("combination","vtk_mat")],["points and point fields of vtk_fiber and vtk_mat"])
p("C31","Exported mesh fields interpolate the nodal results along each fiber",
"Each fiber is exported with the numbers of points that the resolution arguments ask for, as a single fiber would be; every point carries its place between the two mesh nodes of the same fiber that bracket it; displacements and forces there are the cubic Hermite interpolation of the nodal values (with rotations and moments as slopes), so that at nodes they equal the nodal values, rotation and curvature are its first and second derivatives, points are moved vertically by exactly the displacement, and without fields nothing moves.",
["inputs"],"all meshes and nodal fields, non-periodic and periodic",
"no test covers rendering",
[R],[("bracketing of abscissas, Hermite spline on node labels","vtk_mesh")],["points and point fields of vtk_mesh"])
p("C32","A periodic export shows all images of the material within two box sizes",
"The export of a periodic mesh lies within one box size of the origin on x and y, contains every exported point of every fiber and of its eight neighboring images that falls inside, with unchanged heights and field values, and nothing else but points of cells that are cut, and a non-periodic export contains each fiber once and is not clipped.",
["inputs"],"all meshes, periodic or not, all boxes",
"no test covers rendering",
[R],[("eight translated copies and clipping box","vtk_mesh")],["points of vtk_mesh for periodic and non-periodic meshes"])
p("C33","Settings return what was last set, whatever the history of edits",
"After any history of assignments, keyword calls and switch or field edits, reading a setting returns the last value set (theta as a fraction of pi, slider values limited to their range, itermax as an integer); switched-off moduli read as infinite and other switched-off settings as None, setting such a value switches off and keeps the former value for when it is switched on again, a field is disabled exactly when its switch is off, and no setting changes another. Unpacking the settings gives every parameter of the generation and of the solver.",
["histories","inputs"],"all initial values and all histories of edits of the 19 settings",
"a property of histories; no test covers the widgets",
[W],[("switch widgets and observers","Settings.__init__"),("mapping of values","Settings.__getitem__, Settings.__setitem__")],["settings[name], **settings, widget states"])
p("C34","Operations never modify or share state with their inputs unexpectedly",
"Over any history of operations, building a network, a mesh, matrices, a solution or an export changes no object that exists already, except that stacking updates the heights of the fiber set it is given and that assembling constraints adds the node thickness to the mesh; objects built from one another by an operation share neither tables nor attributes, so that editing one never changes another (wrapping a table in a constructor may share its columns, as pandas does without copy=True, but never its attributes). The same operation on equal inputs gives equal results whatever happened before.",
["histories"],"all histories of constructions, edits, stackings, solutions and exports over several live objects",
"aliasing shows up only in histories where an earlier object is edited or read again after later operations; tests use each object once",
[M,N,ME,MO,SO,R],[("copies of tables and attributes in the constructors","Mat, Net, Stack, Mesh constructors")],["all live tables and attrs after each operation"])
p("C35","Wrapping, defaults and the skip flag behave alike for all objects",
"Constructing an object from a well-formed table of its kind gives an equal table of the requested type with the same labels and attributes; without arguments every constructor gives the empty object, every step of the chain maps empty objects to empty results, and checking None is checking an empty object. With the skip_check attribute set, any table is accepted with a warning, and without it the same table is judged on its merits.",
["inputs","histories"],"all tables of the four kinds and all chains of wrapping, including empty ones",
"the tests only build empty objects one at a time and never wrap a table again",
[M,N,ME,MO,SO],[("constructors that accept a table or parameters","__init__ of Mat, Net, Stack, Mesh"),("skip flag","check methods")],["results of constructors and checkers"])
p("C36","Compaction does not depend on units or the horizontal frame",
"The same packing problem written in other units gives the same history: with all lengths (and length bounds and tolerances) multiplied by one factor and all moduli by another one, stacked heights, displacements, bounds and ceilings are multiplied by the first factor, contact forces by the second times the square of the first, and rotations, packing ratios and the number of steps stay. Without periodicity, mirroring or turning the box by a right angle changes nothing of them, and raising the fibers in order before stacking changes nothing either.",
["inputs","configurations"],"all well-posed in-plane fiber sets, all positive factors, mirrored and turned boxes",
"a relation between complete runs of the whole chain; no test runs the solver",
[M,N,ME,MO,SO],[("dimensionally consistent element matrices, bounds and steps","stiffness, constraint, solve")],["heights of stacked fiber sets and results of solve for two problems"])
p("C37","The drawn system shows every term of the equations in its category",
"The drawing of a mechanical system marks, at its place after the permutation, every nonzero stiffness term as stiffness and every nonzero term of a contact condition and its transpose once: as lower, inner or upper if the condition is closed by the given displacements and as inactive otherwise, and nothing else. It is drawn in the axes that are given, reports a vanishing error for a well-posed system and changes none of its arguments.",
["inputs"],"all assembled systems, at the start of a compaction or in the middle, and all permutations",
"no test draws a system",
[MO],[("diagonal masks and permutation of the block system","plot_system")],["lines of the axes returned by plot_system, printed error"])
p("C38","The fibers store exactly the work done by the ceiling",
"In every compaction with finite moduli, the elastic energy of the displacements starts at zero, never decreases, and grows in every step by the mean force of the ceiling times its advance: contacts and the floor do no work.",
["inputs"],"all well-posed meshes, parameters and steps",
"an energy balance between consecutive states of a run; no test runs the solver",
[SO,MO],[("symmetric system, contacts kept closed during a step","solve, stiffness, constraint")],["u, f and Z returned by solve at consecutive steps"])
p("C39","Every step refuses ill-formed tables and then does nothing",
"Building a network, stacking (or assembling or solving the stacking problem), meshing, assembling stiffnesses or contact conditions, compacting and exporting raise the documented kind of error of a defect when any of the tables given to them is ill-formed, whatever was computed before, and then leave every object as it was; well-formed tables are accepted, whatever extra columns, attributes or order of columns they have.",
["inputs","histories"],"all steps and all tables, well-formed or with any defects, and all histories of damages, repairs and calls",
"no test gives a defective table to any step",
[N,ME,MO,SO,R],[("checks on entry","assert Mat.check, Net.check, Mesh.check at the start of every step")],["error raised by a step, contents of all objects before and after"])
p("C40","Fibers that are not connected do not influence each other",
"When some fibers of a set have no connection, direct or through others, to the rest, they form the same network rows, settle at the same heights, keep the same stack rows under a threshold, get the same nodes, beams and links and the same stiffness and contact conditions as when they are processed alone in the same box, whatever the other fibers are and however the labels interleave; and in a compaction of the whole they move and are loaded, for every position of the ceiling, as in a compaction of them alone.",
["inputs"],"all in-plane fiber sets and all unions of their connected components, periodic or not, all thresholds and all well-posed compactions whose bounds on the lengths are inactive",
"a relation between the results for a set and for its subsets, through the whole chain; no test compares two sets, and none has unconnected groups",
[N,ME,MO,SO],[("candidate search with global bounds","Net.init"),("one optimization for all heights","Stack.init"),("global numbering of nodes","Mesh.init"),("length bounds and block systems","stiffness, constraint"),("one ceiling and step for all","solve")],["tables of every step and results of solve, for a whole and for its parts"])
p("C41","It does not matter which end of a fiber comes first",
"Describing any fibers of an in-plane set by the opposite direction changes nothing but the bookkeeping: the network has the same rows with the abscissas on these fibers negated, all fibers settle at the same heights and the same connections remain under a threshold, the nodes, beams and links are the same with the nodes of these fibers in reverse order, the stiffness and the contact conditions are the same up to the sign of these rotations, and so are displacements, rotations and contact forces of a compaction for every position of the ceiling.",
["inputs"],"all in-plane fiber sets, all subsets of reversed fibers, periodic or not, all thresholds and well-posed compactions whose bounds on the lengths are inactive",
"a symmetry of the whole chain, which relates the results of two runs; no test compares two runs",
[N,ME,MO,SO],[("both ends of a fiber treated alike","Net.init, Mesh.init"),("element matrix symmetric in its ends","stiffness"),("conditions of nodes, not of ends","constraint, solve")],["tables of every step and results of solve, for two descriptions of the same fibers"])
p("C42","One set of parameters serves the whole chain",
"Every step depends, besides the objects given to it, on its own documented parameters at the time of the call and on nothing else: handing over all parameters of the chain at once, from a dictionary or the panel of settings, only those of the step, only those which differ from their documented default, or those of the step by position in the documented order, with unknown words and with other values for the parameters of other steps, gives the same network, stack, mesh, matrices, compaction and drawing of a fiber, in all histories of steps and changes of parameters.",
["inputs","histories"],"all values of the parameters, all ways to pass them, and all histories of changing them and running steps",
"a relation between calls which pass the same parameters differently; the tests call every step in one way",
[M,N,ME,MO,SO,R,W],[("signatures and defaults","Mat.init, Net.init, Stack.init, Mesh.init, stiffness, constraint, solve, vtk_fiber"),("extra keywords ignored","**kwargs of every step"),("current values of the panel","Settings")],["tables, matrices and results of all steps in a history"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
print(len(P))
