"""Source of properties.jsonl and MANIFEST.json: python3 properties_src.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'observe_at': observe} if observe else {})),
                  _t=technique, _n=note))


SMOKE = 'The existing programs only check that a solve on one fixed square grid converges; wrong numbers that still converge pass.'

prop('C01', 'The matrix-free Stokes operator is the exact discrete weak form',
     'Applying the matrix-free Stokes operator (gradient form or symmetric-gradient form) to any velocity/pressure vector returns, at every velocity and pressure unknown, the value of the '
     'exact finite-element weak form with bilinear velocities on the fine grid and bilinear pressures on the twice coarser grid: viscous term minus pressure-divergence coupling in the velocity rows, velocity divergence in the pressure rows. '
     'This holds in 2-D and 3-D, for every number of points, box size and aspect ratio, periodic or not, and for every number of processes; the input vector is left unchanged and stale output content never leaks into the result.',
     ['inputs', 'configurations'], 'all vectors, grids, box sizes, periodicity patterns, both viscous forms, 2-D and 3-D, all process counts',
     SMOKE + ' 3-D kernels are not compiled by any test, and no test looks at a single row of the operator.',
     ['cafes/fem/matElem.hpp', 'cafes/fem/operator.hpp', 'cafes/fem/matrixFree.hpp', 'cafes/fem/quadrature.hpp'],
     [('element matrices', 'cafes/fem/matElem.hpp'), ('element loops', 'cafes/fem/operator.hpp'), ('shell operator and ghost sums', 'cafes/fem/matrixFree.hpp')],
     'runtime oracle: recorded operator applications compared with an independent discretisation',
     'differential monitor on random vectors over random grids and process counts; a linear operator is identified by dense random vectors, so any wrong row on an explored grid is seen')

prop('C02', 'Assembled matrices equal the matrix-free operators and fit their preallocation',
     'The assembled 2-D system and preconditioner matrices act on every vector exactly as the corresponding matrix-free operators: same viscous, coupling and pressure-mass entries in all rows, and identity rows on Dirichlet borders. '
     'Assembly never needs an entry outside the sparsity reserved beforehand. Both hold for every grid, box, periodicity, viscous form and process count.',
     ['inputs', 'configurations'], 'all grids, boxes, periodicity patterns, viscous forms and process counts (Dirichlet data on all non-periodic borders)',
     SMOKE + ' The assembled and matrix-free paths are never compared, and periodic or free boundary rows are never exercised.',
     ['cafes/fem/assembling.hpp', 'cafes/fem/matElem.hpp', 'cafes/fem/bc.hpp', 'cafes/problem/stokes.hpp'],
     [('preallocation', 'cafes/fem/assembling.hpp'), ('element insertion', 'cafes/fem/assembling.hpp'), ('Dirichlet rows', 'cafes/fem/bc.hpp')],
     'runtime oracle: assembled vs matrix-free vs reference application, allocation counters',
     'random vectors and random grids/process counts; matrices observed through their action and PETSc allocation counters')

prop('C03', 'Mass operators, diagonals and source terms are exact integrals',
     'The velocity, pressure and combined mass operators return the exact integrals of products of basis functions; the diagonal reported by the Laplacian and mass operators is the diagonal of that operator. '
     'A volume source contributes exactly the velocity mass operator applied to the nodal values of the source, added once to the existing right-hand side, with nothing added for a component without source nor to the pressure part.',
     ['inputs', 'configurations'], 'all vectors and source functions, grids, boxes, periodicity patterns, dimensions and process counts',
     SMOKE + ' Mass operators and diagonals are only used inside preconditioners, where errors merely change the iteration count.',
     ['cafes/fem/operator.hpp', 'cafes/fem/rhs.hpp', 'cafes/fem/matrixFree.hpp', 'cafes/fem/matElem.hpp'],
     [('mass and diagonal kernels', 'cafes/fem/operator.hpp'), ('source assembly', 'cafes/fem/rhs.hpp')],
     'runtime oracle: mass/diagonal/source observations compared with exact integrals', 'random polynomials and vectors over random grids and process counts')

prop('C04', 'Dirichlet conditions are imposed exactly where prescribed and nowhere else',
     'On each border of a non-periodic direction and for each velocity component with a prescribed function, the value is set to that function at the node position (right-hand side), to zero (homogeneous variant), or to the input value (operator application), '
     'the border applied last deciding at shared edges and corners in the order x-, x+, y-, y+, z-, z+. Components without a function, interior nodes, periodic directions and the pressure are left untouched, whatever the partition of the mesh.',
     ['inputs', 'configurations'], 'all boundary-condition tables (including absent functions), vectors, grids, periodicity patterns, dimensions and process counts',
     SMOKE + ' Tests use full Dirichlet tables with constant data on one grid; absent conditions, corners with conflicting data and partition-dependent borders are not looked at.',
     ['cafes/fem/bc.hpp', 'cafes/fem/mesh.hpp', 'cafes/fem/matrixFree.hpp'],
     [('border iteration', 'cafes/fem/bc.hpp'), ('point boxes', 'cafes/fem/mesh.hpp')],
     'runtime oracle: every node compared with the specified border value', 'bitwise comparison at every node over random condition tables, grids and process counts')

prop('C05', 'Meshes are nested, sized as specified and partitioned exactly once',
     'For n points per direction the pressure grid has n points and the velocity grid 2n-1 (one and two fewer respectively, n-1 and 2n-2, in a periodic direction), in 2-D and 3-D; the scalar mesh has n points (n-1 when periodic). '
     'Every point and every element of each grid belongs to exactly one process, every process owns the velocity points that refine its own pressure points, and reported sizes and bounds agree with the vectors on the mesh.',
     ['configurations'], 'all grid sizes, periodicity patterns, dimensions and process counts',
     'Tests run two meshes on at most four processes and never look at ownership; 3-D meshes are not created by any test.',
     ['cafes/fem/mesh.hpp'], [('mesh creation', 'cafes/fem/mesh.hpp'), ('ownership ranges of the velocity', 'cafes/fem/mesh.hpp'), ('element and point boxes', 'cafes/fem/mesh.hpp')],
     'trace monitor: coverage, nesting and ghost ranges recorded on every process', 'ranges recorded on all processes and checked for exact coverage')

prop('C06', 'Ghost values mirror their owner and local contributions are summed exactly once',
     'After a refresh, every value a process sees at an owned or ghosted mesh point equals the value held by the owner of that point, also across periodic borders. '
     'Pushing local contributions adds to each global value the sum, over all processes and ghosted copies, of what was contributed, and operations on one field (velocity or pressure) never alter the other.',
     ['inputs', 'configurations', 'schedules'], 'all vectors, grids, periodicity patterns, dimensions and process counts',
     'Tests never read individual ghosted values; an omitted or double-counted ghost layer only perturbs convergence.',
     ['cafes/petsc/vec.hpp'], [('local/global transfer', 'cafes/petsc/vec.hpp'), ('indexed access', 'cafes/petsc/vec.hpp')],
     'trace monitor: ghosted values and additive pushes recorded on every process', 'all ghosted values of all processes compared with the owners')

prop('C07', 'Every solver configuration returns the discrete Stokes solution of the user data',
     'For compatible Dirichlet data and any source, solving returns velocities equal (to solver tolerance) to the unique discrete Stokes velocity and a pressure equal up to a constant, whichever of the direct, Krylov or multigrid/pressure-mass configurations, assembled or not, '
     'and viscous form is selected, for every grid, periodicity and process count. Solving again after changing the right-hand side, in any order, gives the solution of the current right-hand side only.',
     ['inputs', 'configurations', 'histories'], 'all compatible boundary data and sources, grids, periodicity, solver configurations, process counts, and sequences of solves',
     'Tests check only that the solver converged on one square grid for one set of data; nobody compares the returned fields with a solution.',
     ['cafes/problem/stokes.hpp', 'cafes/problem/context.hpp', 'cafes/fem/rhs.hpp', 'cafes/fem/bc.hpp'],
     [('problem construction', 'cafes/problem/stokes.hpp'), ('right-hand side', 'cafes/problem/stokes.hpp'), ('solver set-up', 'cafes/problem/stokes.hpp')],
     'runtime oracle: returned fields compared with an independent direct solve', 'end-to-end differential check on random problems, all solver configurations, 1-4 processes')

prop('C08', 'Multigrid coarse levels discretise the same operator on the coarsened grid',
     'Each coarse level of the multigrid velocity solver carries the viscous operator of the fine problem discretised on the grid coarsened by that power of two, with the matching spacing and identity rows on Dirichlet borders, '
     'and reports the diagonal of that operator (gradient form). Set-up terminates and this holds for every coarsenable grid, square or not, periodic or not, any process count.',
     ['configurations'], 'all coarsenable grids, box sizes, periodicity patterns, viscous forms and process counts',
     'Tests use square grids only and a wrong coarse level only slows convergence.',
     ['cafes/problem/stokes.hpp', 'cafes/fem/matrixFree.hpp'], [('level operators', 'cafes/problem/stokes.hpp')],
     'runtime oracle: level operators applied and compared with per-level references', 'all coarse levels of random hierarchies, hang detection by time limit')

prop('C09', 'Run-time options select exactly the documented problem',
     'Each documented option (points and length per direction, periodicity per direction, symmetric-gradient form, assembly, multigrid) sets exactly its own parameter and nothing else; options that are absent keep their defaults '
     '(17 points, unit length, non-periodic, gradient form, matrix-free, no multigrid). The constructed problem has the grid and spacing these parameters imply.',
     ['configurations'], 'all subsets and values of the options, 2-D and 3-D',
     'Tests use two or three fixed option lists and do not check what was understood from them.',
     ['cafes/problem/options.hpp', 'cafes/problem/stokes.hpp'], [('option parsing', 'cafes/problem/options.hpp'), ('spacing', 'cafes/problem/stokes.hpp')],
     'runtime oracle: parsed parameters and mesh compared with the given options', 'random option subsets; observed through the constructed problem')

# --- more properties are appended below by later sections
exec(open(os.path.join(HERE, 'properties_more.py')).read()) if os.path.exists(os.path.join(HERE, 'properties_more.py')) else None

NA = globals().get('NOT_APPLICABLE', [])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    na = {x['property'] for x in NA}
    m = dict(version=1, setup_cmd='python3-vt setup.py', checks=[dict(
        property=p['id'], quick_cmd='python3-vt check.py %s --quick' % p['id'], thorough_cmd='python3-vt check.py %s --thorough' % p['id'],
        technique=p['_t'], level='exploration', level_note=p['_n']) for p in P if p['id'] not in na],
        not_applicable=NA, notes='No hooks are needed in /repo: the harnesses observe through the public headers, so there is no guard.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties')
