# executed by properties_src.py
prop('C10', 'Particles are discretised on the mesh exactly, whatever the partition',
     'For disjoint particles inside the box, a velocity node is a control node of a particle if and only if it lies inside it, and every control node is held by exactly one process. '
     'Surface points lie on the surface, are each held once, attached to the element that contains them with a radial vector joining the centre, are balanced around the centre and leave no hole larger than the sampling step allows. '
     'Quadrature counts equal the number of sub-lattice points inside the particle. In 2-D and 3-D, on any number of processes.',
     ['inputs', 'configurations'], 'all sets of disjoint circles/spheres inside the box, grids, periodicity, sampling steps and process counts',
     'Tests use one or two circles on one grid and at most four processes and only check convergence; a lost or doubled point at a process border is invisible.',
     ['cafes/particle/particle.hpp', 'cafes/particle/geometry/circle.hpp', 'cafes/particle/geometry/sphere.hpp', 'cafes/algorithm/iterate.hpp', 'cafes/fem/mesh.hpp'],
     [('control nodes', 'cafes/particle/particle.hpp'), ('surface points', 'cafes/particle/particle.hpp'), ('quadrature counts', 'cafes/particle/particle.hpp')],
     'trace monitor: points recorded on every process checked against the geometry', 'all points of all processes checked for exact cover; rounding band of 1e-9 of the radius left free')
prop('C11', 'Surface interpolation and surface spreading are the exact bilinear transfers',
     'The velocity interpolated at a surface point is the value of the bilinear field there (minus the rigid velocity of its particle when asked for). A surface density is spread as the exact weighted point sources: each surface point weighs the surface measure over the number of points of its particle, '
     'the result vanishes on Dirichlet borders only, is summed over process borders exactly once, and interpolation leaves the field unchanged.',
     ['inputs', 'configurations'], 'all fields, densities, particle sets, grids, periodicity, boundary tables, dimensions and process counts',
     'Never observed by a test: errors only change the final coupled solution or its convergence.',
     ['cafes/particle/particle.hpp', 'cafes/problem/particle_operator.hpp', 'cafes/fem/quadrature.hpp'],
     [('interpolation', 'cafes/problem/particle_operator.hpp'), ('simple layer', 'cafes/problem/particle_operator.hpp')],
     'runtime oracle: every surface value and spread entry compared with the bilinear basis', 'differential on random fields, 2-D and 3-D, 1-6 processes')
prop('C12', 'Projections filter rigid motions of each particle exactly',
     'Projecting surface data, or the field inside the particles, removes from each particle its mean and its mean rotation and nothing else: rigid motions are mapped to zero, what is left has zero mean and zero mean rotation, particles never influence each other, '
     'and the outcome does not depend on how the particle is distributed over processes.',
     ['inputs', 'configurations'], 'all data, particle sets, grids, dimensions and process counts',
     'The projection is only used inside an iterative solver, where an inexact filter still converges, to a wrong flow.',
     ['cafes/problem/particle_operator.hpp', 'cafes/particle/particle.hpp'], [('projections', 'cafes/problem/particle_operator.hpp')],
     'runtime oracle: projected data compared with the reference filter on recorded points', 'random and rigid data, 2-D and 3-D, 1-6 processes')
prop('C13', 'Control unknowns map to the fluid right-hand side and to forces exactly',
     'The fluid right-hand side built from a control vector is the mass operator applied to the control at the controlled nodes (plus density times force on the particle nodes when asked for), with homogeneous or prescribed border values, and nothing elsewhere. '
     'Forces and torques reported for a control are its mean and its mean moment over the particle times the particle volume, identical on all processes.',
     ['inputs', 'configurations'], 'all controls, particle sets, grids, dimensions and process counts',
     'Tests only look at the convergence of the coupled solve.',
     ['cafes/problem/particle_operator.hpp', 'cafes/particle/forces_torques.hpp', 'cafes/problem/problem.hpp'],
     [('control to right-hand side', 'cafes/problem/particle_operator.hpp'), ('resultants', 'cafes/particle/forces_torques.hpp')],
     'runtime oracle: right-hand side and resultants compared with the reference composition', 'random controls, 2-D and 3-D, 1-6 processes')
prop('C14', 'The extension method solves the free-particle problem it is given',
     'For free particles with weights, the operator and right-hand side handed to the outer solver are the composition prescribed by the smooth extension method (fluid solve, surface trace, rigid filter, surface spreading, fluid solve, volume filter), '
     'the returned control satisfies that equation, and the final flow, particle velocities, forces and torques are those of the returned control. Repeating the solve, or distributing it over processes, does not change this.',
     ['inputs', 'configurations', 'histories'], 'all compatible data, particle sets, viscous forms, sampling steps, process counts, repeated solves',
     'Tests check that the outer solver runs; they never look at the returned flow or velocities.',
     ['cafes/problem/sem.hpp', 'cafes/problem/particle_operator.hpp', 'cafes/problem/stokes.hpp'], [('extension operator', 'cafes/problem/sem.hpp'), ('last problem', 'cafes/problem/sem.hpp')],
     'runtime oracle: coupled operator, solution and resultants compared with an independent composition', 'random coupled problems, 2-D, 1-4 processes')
prop('C15', 'The Dirichlet-to-Neumann method drives the flow to the prescribed rigid motion',
     'For particles with prescribed translation and rotation, the operator and right-hand side of the outer problem are the composition of fluid solve, trace minus the rigid motion, surface spreading and fluid solve, '
     'the returned control satisfies that equation and the final flow is the one driven by the returned control, for every partition and number of repeated solves.',
     ['inputs', 'configurations', 'histories'], 'all compatible data, particle sets and motions, viscous forms, process counts, repeated solves',
     'Tests check convergence of the outer solver only.',
     ['cafes/problem/dton.hpp', 'cafes/problem/particle_operator.hpp', 'cafes/problem/stokes.hpp'], [('DtoN operator', 'cafes/problem/dton.hpp')],
     'runtime oracle: coupled operator and solution compared with an independent composition', 'random coupled problems, 2-D, 1-4 processes')
prop('C16', 'Post-processing refinement returns the bilinear field at every fine point',
     'Interpolating a solution on a mesh refined by any pair of factors gives, at every point of the refined velocity and pressure grids, the value of the bilinear field of the solution there, for every grid, periodicity, pair of factors and process count; the solution is left unchanged.',
     ['inputs', 'configurations'], 'all fields, grids, periodicity patterns, refinement factors and process counts',
     'The only test refines a square grid by 2 in both directions and never looks at the values.',
     ['cafes/posttraitement/interpolation.hpp', 'cafes/fem/quadrature.hpp'], [('interpolation on the refined mesh', 'cafes/posttraitement/interpolation.hpp')],
     'runtime oracle: every refined value compared with the bilinear field', 'random fields, grids, factors, 1-6 processes')
prop('C17', 'Saved files hold the solution exactly and describe it truthfully',
     'Saving a solution writes every velocity and pressure value unchanged in natural order, also over an older file and from any number of processes, and leaves the solution unchanged. '
     'The description file names the written datasets and gives their true sizes, mesh sizes, origin and spacing, for every grid, aspect ratio, periodicity and refined solution.',
     ['inputs', 'configurations', 'histories'], 'all fields, grids, aspect ratios, periodicity patterns, process counts and repeated saves',
     'Tests write files that nobody reads.',
     ['cafes/io/hdf5.hpp'], [('HDF5 datasets', 'cafes/io/hdf5.hpp'), ('XDMF description', 'cafes/io/hdf5.hpp')],
     'offline checker: files read back with the plain HDF5 library and an XML parser', 'bitwise comparison of the datasets; random grids, 1-6 processes')
prop('C19', 'Boxes and index ranges are combined, queried and visited exactly',
     'Intersection, overlap, union, inclusion and point queries on boxes agree with interval arithmetic in every direction (boxes closed for intersection, half-open for point membership), corners are listed in the documented order, '
     'and iterating over an index box visits each of its points exactly once and nothing else, in 2-D and 3-D, for real and integer boxes.',
     ['inputs'], 'all boxes with ordered corners, points and index ranges',
     'The box test is not even compiled; particle code only meets boxes in a few relative positions.',
     ['cafes/particle/geometry/box.hpp', 'cafes/algorithm/iterate.hpp', 'cafes/particle/geometry/position.hpp'], [('box operations', 'cafes/particle/geometry/box.hpp'), ('iteration', 'cafes/algorithm/iterate.hpp')],
     'runtime oracle: answers compared with interval arithmetic', 'random boxes in all relative positions')
prop('C20', 'Shapes, their surface samples and bounding boxes are geometrically exact',
     'For circles, spheres and super-ellipsoids of any exponents and orientation, the implicit function, containment and the parametrisation describe the same surface, real and index bounding boxes enclose the shape, '
     'surface area, volume and resistance constants have their closed-form values for circles and spheres, and sampled surface points lie on the surface, are balanced around the centre and leave no hole larger than the sampling step allows.',
     ['inputs'], 'all shapes, orientations, parameters, query points, spacings and sampling steps',
     'Tests use one or two circles without rotation; 3-D shapes, exponents and orientations are not covered.',
     ['cafes/particle/geometry/super_ellipsoid.hpp', 'cafes/particle/geometry/circle.hpp', 'cafes/particle/geometry/sphere.hpp', 'cafes/particle/geometry/uniform_sampling.hpp', 'cafes/particle/geometry/quaternion.hpp'],
     [('shape queries', 'cafes/particle/geometry/super_ellipsoid.hpp'), ('sampling', 'cafes/particle/geometry/uniform_sampling.hpp')],
     'runtime oracle: queries and samples compared with the definition of the shape', 'random shapes, points and steps; a band of 1e-9 around the surface is left free')
prop('C21', 'Vector, force, velocity and rotation algebra follows its definition',
     'Sums, differences, products, quotients, compound assignments and cross products of positions, vectors, forces and velocities equal the componentwise or geometric definition for every operand and operand order, rotations given by an angle and a unit axis are exact isometries undone by their conjugate, and regular samplings are evenly spaced.',
     ['inputs'], 'all operands, scalars, angles and axes, 2-D and 3-D',
     'Two test programs print a few results and assert nothing.',
     ['cafes/particle/geometry/vector.hpp', 'cafes/particle/geometry/position.hpp', 'cafes/particle/geometry/cross_product.hpp', 'cafes/particle/geometry/quaternion.hpp', 'cafes/particle/physics/force.hpp', 'cafes/particle/physics/velocity.hpp', 'cafes/particle/geometry/linspace.hpp'],
     [('operators', 'cafes/particle/geometry/vector.hpp'), ('rotations', 'cafes/particle/geometry/quaternion.hpp')],
     'runtime oracle: every operator compared with its definition', 'random operands at all magnitudes')
prop('C18', 'Singular fields of close pairs are one consistent incompressible flow',
     'For two particles in near contact, the singular velocity, its gradient and the pressure are, at every point, those of one truncated lubrication flow given by the gap, the radii and the relative velocity along the line of centres: '
     'the gradient is the derivative of the velocity, it is trace free, the values do not depend on the orientation of the pair (a frame that is orthonormal and maps there and back), they are finite and right on the axis, and they vanish beyond the cut-off, '
     'behind the particles and without normal relative motion. The box of cells announced for the pair covers the gap region.',
     ['inputs'], 'all pairs of circles or spheres closer than the contact length, orientations, relative velocities and query points',
     'No test enables the singular fields; an axis-aligned pair with one motion would hide frame and sign errors.',
     ['cafes/particle/singularity/singularity.hpp', 'cafes/particle/singularity/UandPNormal.hpp', 'cafes/particle/singularity/UandPTang.hpp'],
     [('singular velocity, gradient and pressure', 'cafes/particle/singularity/singularity.hpp')],
     'runtime oracle: velocity, gradient and pressure samples compared with the closed form and with numerical derivatives', 'random pairs in all orientations, points in the gap, on the axis, at and past the cut-offs')
prop('C22', 'No workload reads or writes memory it does not own',
     'Running any of the operations of the library on valid data, in any order, on any number of processes, has no out-of-bounds access, use after free, read of uninitialised memory or other undefined behaviour.',
     ['inputs', 'configurations', 'histories'], 'all valid workloads of all other properties',
     'The tests run uninstrumented and only look at the exit status.',
     ['cafes/fem/matrixFree.hpp', 'cafes/fem/assembling.hpp', 'cafes/fem/bc.hpp', 'cafes/petsc/vec.hpp', 'cafes/particle/singularity/add_singularity.hpp', 'cafes/problem/particle_operator.hpp'],
     [('array access', 'cafes/petsc/vec.hpp')],
     'AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck', 'sampled workloads of every other property, 1-6 processes; PETSc itself is not instrumented')
prop('C23', 'Repeated operations do not consume memory or descriptors',
     'Repeating an operation of a simulation loop on an existing problem (operator application, assembly, right-hand side, solve, interpolation, spreading, projection, forces, coupled solve, saving) leaves the memory in use and the open descriptors of every process where they were: '
     'every work vector, mesh, matrix and file an operation takes is given back.',
     ['histories'], 'all operations, grids, conditions, particle sets and numbers of repetitions',
     'A leak of a work vector per operation is invisible in a test that runs each operation once, and ends a long simulation.',
     ['cafes/fem/matrixFree.hpp', 'cafes/problem/particle_operator.hpp', 'cafes/problem/stokes.hpp', 'cafes/posttraitement/interpolation.hpp', 'cafes/io/hdf5.hpp', 'cafes/petsc/vec.hpp'],
     [('work vectors', 'cafes/problem/particle_operator.hpp')],
     'runtime monitor: bytes in use and descriptors of every process after each repetition', 'suspects after 10 repetitions, confirmed by 30; 1 and 2 processes; creating and destroying whole problems is not included (nothing in the library frees them)')
prop('C24', 'Singular corrections enter the coupled problem exactly once',
     'With the singular fields enabled, the source added to the fluid right-hand side is the weak form of the lubrication flow integrated over the fluid part of the gap cells, the values added to the solution are the lubrication velocity at the mesh nodes, '
     'and the force added to each particle is the integral of its stress over the part of that particle facing the gap, identical for every number of processes. They enter the affine part of the coupled problem only, so that its operator stays linear.',
     ['inputs', 'configurations', 'histories'], 'all close pairs, grids, sampling, process counts, 2-D and 3-D',
     'No test enables the singular fields.',
     ['cafes/particle/singularity/add_singularity.hpp', 'cafes/problem/dton.hpp'],
     [('singular source', 'cafes/particle/singularity/add_singularity.hpp'), ('singular forces', 'cafes/particle/singularity/add_singularity.hpp')],
     'runtime oracle: added vectors and forces compared with quadrature of the closed form', 'random pairs, 2-D np 1-6, 3-D np 1-4; coupled DtoN problems with singular fields')
prop('C25', 'Triangulations cover exactly the body or the region',
     'The triangles returned for points of the plane are numbers of distinct input points, do not overlap, together cover exactly the convex hull of the points, use every point, and have empty circumcircles (Delaunay). '
     'The triangles returned for points of space, including the sampled surface of a convex body, form the closed surface of the convex hull of the points. Nothing else is returned.',
     ['inputs'], 'all finite sets of distinct points not on one line (plane) or in one plane (space), any scale, order and symmetry',
     'Triangulations feed meshes and output files; the only program using them looks at a count. Symmetric sets (many points on one circle) take a different path through qhull than sets in general position.',
     ['cafes/particle/geometry/triangulation.hpp'],
     [('triangulations', 'cafes/particle/geometry/triangulation.hpp')],
     'runtime oracle: areas, volumes, edges and circumcircles of the returned triangles', 'random sets of 3 to 60 points (250 thorough), symmetric sets, sampled bodies; the bundled qhull rejects some coplanar sets whose coordinates carry rounding (not generated)')
prop('C26', 'Sliding lubrication fields are consistent flows',
     'For two spheres or discs sliding past each other the sliding lubrication functions give a divergence-free velocity, their gradient functions are its derivatives, everything is proportional to the sliding velocity and vanishes beyond the cut-off. '
     'In 2-D velocity, gradient and pressure are the Reynolds solution of the gap times the cut-off and each wall moves at half the sliding velocity, one against the other; in 3-D the pressure is the Reynolds solution and the walls move likewise.',
     ['inputs'], 'all curvatures, gaps, sliding velocities and points of the gap',
     'Nothing calls these functions: a user adding the sliding corrections relies on thousands of generated terms.',
     ['cafes/particle/singularity/UandPTang.hpp'],
     [('sliding flow', 'cafes/particle/singularity/UandPTang.hpp')],
     'runtime oracle: closed form (2-D), high-order differences, divergence, walls', 'random pairs and points, equal cut-off parameters; 3-D velocity values only through their differences and walls')
