"""Writes /verif/properties.jsonl (edit here, not there)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("P01", "Velocity numbering is a symmetric bijection",
  "In 1D, 2D and 3D, the integer numbering of the lattice velocities and their integer components determine each other uniquely, in both directions. The symmetric of a velocity with respect to the origin or to any axis is the velocity with the corresponding components negated, carries the matching number, and symmetrising twice gives back the original.",
  ["inputs"], "all dimensions, all velocity numbers and all integer components, all axes",
  "The tests check some tens of numbers; a numbering defect can sit in any shell of the lattice, far from the sampled ones.",
  ["pylbm/stencil.py"], [("numbering by shells", "pylbm/stencil.py Velocity"), ("symmetries", "pylbm/stencil.py Velocity.get_symmetric")],
  observe=["Velocity(dim, num=..)", "Velocity(vx=.., vy=.., vz=..)", "get_symmetric"])

p("P02", "Stencil tables agree with the velocity lists given by the user",
  "For any list of elementary schemes, the stencil keeps for each scheme its velocities in one consistent order, lists every distinct velocity exactly once, and its sizes, offsets, component arrays, number-to-index maps and per-direction maximal velocities all describe the same velocities. The table of symmetric velocities sends each velocity to the opposite one inside the same scheme when there is one, and the stencil is declared symmetric exactly when all have one.",
  ["configurations"], "all dimensions, any number of elementary schemes, any sets of velocity numbers, overlapping or not, symmetric or not",
  "The tests use a handful of standard stencils (D1Q3, D2Q9, ...); overlapping, gapped and non symmetric stencils are not explored.",
  ["pylbm/stencil.py"], [("unique velocities and pointers", "pylbm/stencil.py Stencil"), ("symmetric map", "pylbm/stencil.py Stencil.get_symmetric")],
  observe=["Stencil attributes", "Stencil.get_all_velocities", "Stencil.get_symmetric", "Stencil.num2index"])

p("P03", "The moment matrices of a scheme are those of its polynomials",
  "For any valid description of a scheme, each moment is the polynomial of that moment summed against the distributions (evaluated at the physical velocities, times nothing else), the inverse matrix is the true inverse, and the matrices, equilibria, relaxation parameters and conserved moments all use one same ordering with the conserved moments first. The result does not depend on the order in which moments or conserved moments are listed, other than by that ordering, and building a scheme never modifies the description given by the user.",
  ["configurations", "inputs"], "all stencils, bases of polynomials, one or several conserved moments at any position, vectorial schemes, matrices given instead of polynomials, relative velocities",
  "The demos always list the conserved moments at the same usual places and compare only final fields of fixed simulations.",
  ["pylbm/scheme.py"], [("matrices of the moments", "pylbm/scheme.py Scheme.create_moments_matrices"), ("permutation", "pylbm/scheme.py Scheme._permute_consm_in_front")],
  observe=["Scheme.M", "Scheme.invM", "Scheme.EQ", "Scheme.s", "Scheme.consm"])

p("P04", "A time step computes the documented lattice Boltzmann scheme",
  "On a periodic domain, one time step maps the distributions to: transport along each velocity, moments, half a step of explicit Euler for the source terms, relaxation of every moment towards its equilibrium with its own parameter, half a step of source terms, and back to distributions. This holds for any scheme, including several coupled schemes, relative velocities, sources and equilibria depending on other moments, space or time, and parameters changed between steps.",
  ["programs", "inputs", "configurations"], "all dimensions, stencils, polynomials, relaxation parameters, equilibria, source terms, relative velocities, initial fields, sizes of domain and number of steps",
  "The demos compare some fixed schemes with stored results of the same code; a scheme, a size or a field outside of them is never executed.",
  ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/simulation.py", "pylbm/symbolic.py"],
  [("kernel of one time step", "pylbm/algorithm/pull.py PullAlgorithm.one_time_step_local"), ("source terms", "pylbm/algorithm/base.py BaseAlgorithm.source_term_local"), ("periodic exchange", "pylbm/storage.py Array.update")],
  observe=["Simulation.one_time_step", "Simulation.F", "Simulation.m"])

p("P05", "The code generation backends compute the same solution",
  "For any valid simulation (domain with obstacles, boundary conditions, sources, relative velocity), the compiled backend and the array backend give the same distributions and the same moments at every fluid point after any number of steps, up to round-off.",
  ["programs", "configurations"], "all simulations accepted by both backends, any number of steps",
  "Each demo is compared with its reference for both backends, but only for the printers, boundary conditions and expressions those demos use.",
  ["pylbm/generator", "pylbm/algorithm", "pylbm/boundary.py", "pylbm/container.py"],
  [("printers", "pylbm/generator/printing"), ("containers", "pylbm/container.py"), ("double buffer", "pylbm/simulation.py Simulation.one_time_step")],
  observe=["Simulation.F", "Simulation.m"])

p("P06", "Storage order and loop options never change the result",
  "The order in which velocities and space directions are stored in memory, the algorithm variant (fused or split loops, local or global moments, pull or basic algorithm) and the way arrays are accessed are invisible in the results: every choice gives the same moments and distributions, indexed by velocity and natural space directions.",
  ["configurations", "programs"], "all permutations of the storage order, all combinations of the algorithm options, all domains, boundary conditions and schemes",
  "The tests run with the default storage order of each backend, mostly square domains.",
  ["pylbm/storage.py", "pylbm/container.py", "pylbm/algorithm/base.py", "pylbm/boundary.py"],
  [("storage order", "pylbm/storage.py Array"), ("ordered indices", "pylbm/symbolic.py set_order, indexed"), ("split loops", "pylbm/algorithm/base.py BaseAlgorithm.one_time_step")],
  observe=["Simulation(sorder=..)", "lbm_algorithm settings", "Simulation.m", "Simulation.F"])

p("P07", "Conservation laws and symmetries of the lattice hold at every step",
  "On a periodic domain, and on a closed domain for the mass with homogeneous bounce-back walls, the total of every conserved moment is constant in time (with sources: changes exactly by the integrated source). Translating the initial data by whole cells translates the solution, and reflecting or exchanging axes of a problem whose scheme has this symmetry reflects or exchanges the solution.",
  ["inputs", "histories", "configurations"], "all schemes, initial data, sizes, translations and axis symmetries, any number of steps",
  "The tests store final fields of fixed runs; no conservation nor equivariance is ever asserted.",
  ["pylbm/algorithm", "pylbm/storage.py", "pylbm/boundary.py"], [("periodic exchange", "pylbm/storage.py Array.update"), ("bounce-back", "pylbm/boundary.py BounceBack")],
  observe=["Simulation.m", "Simulation.F"])

p("P08", "Moments and distributions stay consistent through any use of the API",
  "Whatever sequence of steps, reads and writes of moments or distributions (with or without halo, also by the functions of the user called during a step) and elementary phases is performed, the moments that are read are those of the current distributions unless the user has set moments since, in which case they are the values set. Converting moments to distributions and back is the identity, setting the equilibrium twice is the same as once and keeps the conserved moments, and calling the elementary phases one after the other is the same as one time step.",
  ["histories"], "all finite sequences of API operations, for all backends",
  "The tests only step and read one moment at the end; no test interleaves reads, writes and phases.",
  ["pylbm/simulation.py", "pylbm/storage.py"], [("lazy moments", "pylbm/simulation.py Simulation.m"), ("item access", "pylbm/storage.py Array.__getitem__")],
  state=[("moments are stale", "the moments have to be recomputed before being read", "pylbm/simulation.py")],
  observe=["Simulation.m", "Simulation.m_halo", "Simulation.F", "Simulation.F_halo"])

p("P09", "Boundary conditions give each missing distribution its documented value",
  "At every point next to a labelled wall, whatever the shape of the domain, each distribution entering from outside after a step is the one documented for the condition of this label and this scheme: reflection of the opposite outgoing distribution (with the sign of the condition), interpolated with the true distance to the wall for the Bouzidi family, plus the equilibrium contribution of the value prescribed at the wall, or the neighbouring value for Neumann conditions. All other distributions are transported as in the interior, and labels, elementary schemes and directions never mix.",
  ["configurations", "inputs"], "all domains (box, obstacles at any place relative to the grid, periodic or not in each direction), all methods and labels, all schemes, values and distributions",
  "Some demos use the conditions on fixed geometries and the references were produced by the same code.",
  ["pylbm/boundary.py", "pylbm/domain.py"], [("bounce-back family", "pylbm/boundary.py BounceBack, AntiBounceBack"), ("Bouzidi family", "pylbm/boundary.py BouzidiBounceBack, BouzidiAntiBounceBack"), ("Neumann family", "pylbm/boundary.py Neumann")],
  observe=["Simulation.F", "Domain.distance", "Domain.flag"])

p("P10", "Prescribed boundary values act at the right place and time",
  "The function that prescribes a boundary value receives, for every wall intersection of its label and nothing else, the exact position of the intersection, the user arguments and, for time dependent conditions, the time at the beginning of the step; what it prescribes enters through the equilibrium of the values it sets. A uniform equilibrium state that agrees with the prescribed values stays unchanged for ever, whatever the geometry.",
  ["configurations", "histories"], "all geometries, labels, methods with values, time dependent values, number of steps",
  "No test looks at the arguments of the functions; the demos mostly prescribe uniform constant values.",
  ["pylbm/boundary.py", "pylbm/simulation.py"], [("values on the border", "pylbm/boundary.py BoundaryMethod.prepare_rhs, update_feq"), ("right hand side", "pylbm/boundary.py set_rhs")],
  observe=["calls of the user function", "Simulation.m", "Simulation.F"])

p("P11", "The fluid domain is the box with the elements carved in their order",
  "A cell of the grid is fluid exactly when its centre is in the box and the last geometrical element containing it (if any) is a fluid one. This holds for any combination of elements, of any type, size and position, overlapping or crossing the border of the box, whatever the space step and the dimension.",
  ["configurations"], "all boxes, space steps, lists of elements (fluid or solid) of all types, triangulated surfaces included",
  "The tests compare a few domains with stored images or arrays.",
  ["pylbm/domain.py", "pylbm/geometry.py", "pylbm/elements"], [("add an element", "pylbm/domain.py Domain.__add_elem"), ("bounds of the elements", "pylbm/elements get_bounds")],
  observe=["Domain.in_or_out"])

p("P12", "Wall distances, labels and normals are those of the real geometry",
  "For every fluid cell and every velocity, the domain records a wall exactly when the cell reached by the velocity is not fluid. If the segment between the two cells meets one single surface, which is resolved by the grid, it records the fraction of the segment at which it crosses this surface, the label of the surface crossed and the unit normal at the crossing. Elsewhere it records none.",
  ["configurations"], "all boxes, labels, space steps, elements and stencils",
  "The tests compare a few domains with stored references; distances are only looked at for some boxes, circles and cubes.",
  ["pylbm/domain.py", "pylbm/elements"], [("distances", "pylbm/elements/*.py distance"), ("labels of the border", "pylbm/domain.py Domain.__add_init"), ("clean", "pylbm/domain.py Domain.clean")],
  observe=["Domain.distance", "Domain.flag", "Domain.normal"])

p("P13", "Geometrical elements answer inside, distance and bounds exactly",
  "For each kind of element (circle, ellipse, triangle, parallelogram, sphere, ellipsoid, cylinders and parallelepiped), the inside test is the mathematical one, the bounding box contains the element, and the distance along a direction is the smallest non-negative one at which the ray meets the surface (and none when it does not within the given limit), with the label of the face met and the unit normal there.",
  ["inputs"], "all elements (any position, size, orientation, labels), all points and directions, with or without maximal distance",
  "The tests check a few points for each element, mostly axis aligned ones.",
  ["pylbm/elements"], [("inside", "pylbm/elements/*.py point_inside"), ("ray", "pylbm/elements/*.py distance, pylbm/elements/utils.py"), ("bounds", "pylbm/elements/*.py get_bounds")],
  observe=["point_inside", "distance", "get_bounds"])

p("P14", "The result does not depend on the number of processes",
  "Splitting the domain over any number of processes gives at each point the same fluid map, wall distances and solution as with one process, whatever the boundary conditions, obstacles and periodicity. The parts owned by the processes cover the global grid exactly once.",
  ["configurations", "schedules"], "all global sizes, numbers of processes, splittings, schemes, boundary conditions and elements",
  "The tests run with one process only.",
  ["pylbm/mpi_topology.py", "pylbm/storage.py", "pylbm/domain.py"], [("partition", "pylbm/mpi_topology.py MpiTopology"), ("halo exchange", "pylbm/storage.py Array.update"), ("interfaces", "pylbm/domain.py Domain.__init__")],
  observe=["mpirun -n k", "Domain.coords", "Simulation.m"])

p("P15", "Saved files hold exactly the fields of the simulation",
  "A file written in hdf5 contains the coordinates of the cell centres and, for each scalar or vector added, exactly the values of the field at each cell (first space direction varying fastest), for any number of processes, any path and any time step label. The companion xdmf file is well formed and names each dataset of that file with its true shape and the grid with its true dimensions.",
  ["configurations", "inputs"], "2D and 3D grids (not square), any set of scalars and vectors given as arrays or functions, paths, time step labels, processes",
  "The tests write one scalar of demos with one process and never read the xdmf.",
  ["pylbm/hdf5.py"], [("gather", "pylbm/hdf5.py H5File._set_dset"), ("xdmf", "pylbm/hdf5.py H5File.save")],
  observe=["the .h5 and .xdmf files"])

p("P16", "Ill-formed descriptions are rejected, well-formed ones are accepted",
  "A description with a missing required entry, an unknown entry, an entry of the wrong type, entries that contradict each other (lists of different lengths, repeated velocities or moments, unknown symbols, labels without boundary condition) or a box that is not a multiple of the space step is refused with an error before any computation, and every well-formed one is accepted. In both cases the description given by the user is left unchanged.",
  ["inputs", "configurations"], "all descriptions obtained from a well-formed one by removing, adding or altering one entry, at each level",
  "No test gives an ill-formed description.",
  ["pylbm/validator.py", "pylbm/domain.py"], [("schema", "pylbm/validator.py validate"), ("size of the box", "pylbm/domain.py Domain.create_coords")],
  observe=["Simulation(dico)", "Domain(dico)", "Scheme(dico)", "Geometry(dico)", "Stencil(dico)"])

p("P17", "Equivalent equations describe the scheme that is simulated",
  "The first and second order terms of the equivalent equations computed for a scheme are those of the exact dispersion relation of the simulated scheme, linearised around any uniform state: the growth of a long wave in a simulation of that scheme is the one predicted, up to third order in the wave number, for each couple of conserved moments and each direction, with or without a relative velocity.",
  ["programs", "inputs"], "all schemes without source terms of one or several conserved moments in 1D, 2D, 3D, linearisation states, relative velocities",
  "No test compares the equivalent equations with anything.",
  ["pylbm/analysis/equivalent_equation.py"], [("Chapman-Enskog like expansion", "pylbm/analysis/equivalent_equation.py EquivalentEquation")],
  observe=["EquivalentEquation.coeff_order1", "EquivalentEquation.coeff_order2"])

p("P18", "The stability analysis is about the scheme that is simulated",
  "The eigenvalues given by the stability analysis for a wave vector are those of the exact amplification of that wave by one time step of the scheme linearised around the given state. The wave vectors sampled are spread over the whole period in every direction. A scheme is declared unstable when one of these eigenvalues is out of the unit circle and is not when they are all inside (except the conserved constants).",
  ["programs", "inputs"], "linear and nonlinear schemes in 1D and 2D, linearisation states, wave vectors, relaxation parameters, relative velocities",
  "No test compares the eigenvalues with a simulation.",
  ["pylbm/analysis/stability.py"], [("amplification matrix", "pylbm/analysis/stability.py Stability")],
  observe=["Stability.eigenvalues", "Stability.is_stable_l2"])

p("P19", "Generated code evaluates the expressions the user wrote",
  "For any expression of the supported language (rational and real numbers, powers, elementary functions, comparisons, matrices, indexed arrays, loops over ranges) the routine generated for each backend stores the mathematical value of the expression at each index of the range, and leaves every other entry unchanged.",
  ["programs", "inputs"], "all expressions, shapes, index ranges, storage orders and inputs",
  "The demos print only the polynomial expressions they need.",
  ["pylbm/generator", "pylbm/symbolic.py"], [("numpy printer", "pylbm/generator/printing/numpy.py"), ("cython printer", "pylbm/generator/printing/cython.py"), ("code generation", "pylbm/generator/codegen.py")],
  observe=["Generator.add_routine", "Generator.compile", "generated module"])

p("P20", "Relative velocities change the frame, not the model",
  "A scheme with zero relative velocity is the scheme without relative velocity, and when all the non conserved moments relax with the same parameter the solution does not depend on the relative velocity, constant or depending on the moments. For every relative velocity, equilibrium states remain equilibrium states and conserved moments are conserved, and a source adds its integral to its moment.",
  ["programs", "configurations"], "all schemes, relative velocities (numbers, parameters, functions of the conserved moments), data and steps",
  "One or two demos use a relative velocity, with their own stored results.",
  ["pylbm/scheme.py", "pylbm/algorithm/pull.py"], [("matrices Tu, Tmu", "pylbm/scheme.py"), ("restore of conserved moments", "pylbm/algorithm/base.py")],
  observe=["Simulation.m", "Simulation.F", "Scheme.Tu"])

p("P21", "Simulations are deterministic and do not interfere with each other",
  "Several simulations alive in the same process, stepped in any interleaving, each give bit for bit the results they give alone; running the same description twice gives bit for bit the same results; reusing code generated in a directory gives the results of the freshly generated code. The description can be reused and modified afterwards without effect on existing simulations.",
  ["histories", "configurations"], "all interleavings of construction and stepping of several simulations, all descriptions",
  "Each test runs one simulation at a time.",
  ["pylbm/generator/generator.py", "pylbm/simulation.py", "pylbm/generator/autowrap.py"], [("module of the generated code", "pylbm/generator/generator.py"), ("code directory", "pylbm/generator/generator.py Generator")],
  observe=["Simulation.m", "Simulation.F", "codegen_option"])

p("P22", "The grid is made of the centres of equal cells filling the box",
  "In each direction the interior points are the centres of equal cells of the size of the space step that exactly fill the box, and the halo continues them by as many cells on each side as the largest velocity in this direction. Sizes, coordinates, array shapes and the time step (space step over scheme velocity) always agree.",
  ["configurations"], "all boxes, space steps that divide them (up to round-off), stencils, velocities of the scheme",
  "The tests check a few boxes.",
  ["pylbm/domain.py", "pylbm/geometry.py"], [("coordinates", "pylbm/domain.py Domain.create_coords")],
  observe=["Domain.x, y, z", "Domain.coords_halo", "Domain.shape_in", "Domain.shape_halo", "Simulation.dt"])

p("P23", "Initial data are taken as given, at equilibrium for moments",
  "After the construction of a simulation, each initialised moment has at every point the constant or the value of the function (with its extra arguments) at the coordinates of this point, the other moments are at their equilibrium and the distributions match these moments; when the distributions are initialised, they have exactly these values and the moments match them. The time starts at zero and increases by one time step at each step.",
  ["configurations", "inputs"], "all schemes, dimensions, initial constants and functions with or without arguments, both kinds of initialisation",
  "The demos only look at the solution after some steps.",
  ["pylbm/simulation.py"], [("initialization", "pylbm/simulation.py Simulation.initialization")],
  observe=["Simulation.m_halo", "Simulation.F_halo", "Simulation.t"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        fh.write(json.dumps(q) + "\n")
